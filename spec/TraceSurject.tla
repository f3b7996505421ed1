---------------------------- MODULE TraceSurject ----------------------------
(* Validates recorded calls on real surjection arenas, see TraceBase.       *)
(* Events also carry vlen and vcap; rows of `live` and `it` are <<handle,   *)
(* key token, key content, smallest handle of the set, value token, value   *)
(* content>>.                                                               *)
EXTENDS SurjectCore, Json
VARIABLES l, st, issued, bad
TTrace == ndJsonDeserialize("trace.ndjson")
FailX(b, what) == IF b THEN {} ELSE {what}
TExtra(e, t) ==
       FailX(e.vlen = VCount(t.s), "len")
  \cup FailX(t.k2[1] <= e.vcap /\ e.vcap <= t.k2[2], "cap")
TAdopt(s, e) == [s EXCEPT !.cap = e.cap, !.vcap = e.vcap, !.gen = IF e.gen = 0 THEN @ ELSE e.gen]
INSTANCE TraceLoop WITH BStep <- SStep, BLives <- Lives
TNew == WithLoop(NewSurject)
TMust(s, e) == ~Quiet(e) /\ SMustPanic(s, e)
TMay(s, e) == ~Quiet(e) /\ SMayPanic(s, e)
INSTANCE TraceBase WITH Trace <- TTrace,
                        NStep <- LoopStep, NNew <- TNew, NCount <- Count, NLives <- Lives,
                        NLiveSeq <- SLiveSeq, NExtra <- TExtra, NAdopt <- TAdopt,
                        NMustPanic <- TMust, NMayPanic <- TMay
=============================================================================

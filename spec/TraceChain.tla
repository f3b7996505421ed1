----------------------------- MODULE TraceChain -----------------------------
(* Validates recorded calls on real chain arenas, see TraceBase.  Events    *)
(* with `live` also carry nx and pv, the successor and the predecessor of   *)
(* every link as <<handle, handle>> pairs in ascending order.               *)
EXTENDS ChainCore, Json
VARIABLES l, st, issued, bad
TTrace == ndJsonDeserialize("trace.ndjson")
FailX(b, what) == IF b THEN {} ELSE {what}
PrevSeq(s) ==
  LET q == SeqOf(FRange(s.nxt)) IN [i \in 1..Len(q) |-> <<q[i], PrevOf(s, q[i])>>]
TExtra(e, t) ==
       FailX("nx" \notin DOMAIN e \/ e.nx = NxtSeq(t.s), "link")
  \cup FailX("pv" \notin DOMAIN e \/ e.pv = PrevSeq(t.s), "link")
TAdopt(s, e) == [s EXCEPT !.cap = e.cap, !.gen = IF e.gen = 0 THEN @ ELSE e.gen]
INSTANCE TraceLoop WITH BStep <- CStep, BLives <- Lives
TNew == WithLoop(NewChain)
TMust(s, e) == ~Quiet(e) /\ CMustPanic(s, e)
TMay(s, e) == ~Quiet(e) /\ CMayPanic(s, e)
INSTANCE TraceBase WITH Trace <- TTrace,
                        NStep <- LoopStep, NNew <- TNew, NCount <- Count, NLives <- Lives,
                        NLiveSeq <- LiveSeq, NExtra <- TExtra, NAdopt <- TAdopt,
                        NMustPanic <- TMust, NMayPanic <- TMay
=============================================================================

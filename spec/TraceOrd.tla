------------------------------ MODULE TraceOrd ------------------------------
(* Validates recorded calls on real ordered arenas, see TraceBase.  Rows of *)
(* `live` and `it` are <<handle, value token, value content, key token, key *)
(* class>>; `sq` are the handles in iteration order.  With `cmp`, the       *)
(* largest number of comparisons of a lookup of any stored or missing key.  *)
(* The recorder fills in the gap the implementation chose for an equal key; *)
(* it has to lie among the equal ones.                                      *)
EXTENDS OrdCore, Json
VARIABLES l, st, issued, bad
TTrace == ndJsonDeserialize("trace.ndjson")
FailX(b, what) == IF b THEN {} ELSE {what}
TStep(s, e) ==
  IF e.o = "oeq" /\ e.a[2] \in {1, 3} /\ e.a[5] \notin GapLo(s, s.kc[e.a[1]])..GapHi(s, s.kc[e.a[1]])
  THEN NoOp(s, <<-7>>)
  ELSE IF e.o = "oeq" /\ e.a[2] \in {0, 2}
  \* any equal entry may be the one that is replaced
  THEN LET h == e.r[1] IN IF h \in Class(s, s.kc[e.a[1]]) THEN OReplace(s, h) ELSE NoOp(s, <<-7>>)
  ELSE OStep(s, e)
TExtra(e, t) ==
       FailX("sq" \notin DOMAIN e \/ e.sq = t.s.seq, "order")
  \cup FailX("cmp" \notin DOMAIN e \/ Logarithmic(Count(t.s), e.cmp), "balance")
TAdopt(s, e) == [s EXCEPT !.cap = e.cap, !.gen = IF e.gen = 0 THEN @ ELSE e.gen]
INSTANCE TraceBase WITH Trace <- TTrace,
                        NStep <- TStep, NNew <- NewOrd, NCount <- Count, NLives <- Lives,
                        NLiveSeq <- OLiveSeq, NExtra <- TExtra, NAdopt <- TAdopt,
                        NMustPanic <- OMustPanic, NMayPanic <- OMayPanic
=============================================================================

----------------------------- MODULE TraceArena -----------------------------
(* Validates recorded calls on real basic arenas, see TraceBase.            *)
EXTENDS ArenaCore, Json
VARIABLES l, st, issued, bad
TTrace == ndJsonDeserialize("trace.ndjson")
TExtra(e, t) == {}
TAdopt(s, e) == [s EXCEPT !.cap = e.cap, !.gen = IF e.gen = 0 THEN @ ELSE e.gen]
INSTANCE TraceLoop WITH BStep <- Step, BLives <- Lives
TNew == WithLoop(NewArena)
TMust(s, e) == ~Quiet(e) /\ MustPanic(s, e)
TMay(s, e) == ~Quiet(e) /\ MayPanic(s, e)
INSTANCE TraceBase WITH Trace <- TTrace,
                        NStep <- LoopStep, NNew <- TNew, NCount <- Count, NLives <- Lives,
                        NLiveSeq <- LiveSeq, NExtra <- TExtra, NAdopt <- TAdopt,
                        NMustPanic <- TMust, NMayPanic <- TMay
=============================================================================

------------------------------ MODULE MCSerOrd ------------------------------
(* Deserialization of ordered arenas: de <<key classes>>, not descending.   *)
(* The order of the keys is not checked, so other inputs are not specified. *)
EXTENDS OrdCore

CONSTANTS MaxN, MaxLen, SimDepth
VARIABLES st, hs, pre, tag

SR == INSTANCE Serial

New == [x \in {"ph"} |-> 0] @@ NewOrd
De(s, q) ==
  LET id == [i \in 1..Len(q) |-> i]
      t == SR!Filled(s, id)
  IN Res([t EXCEPT !.live = [i \in 1..Len(q) |-> <<2 * i, 0>>],
                   !.nt = 2 * Len(q),
                   !.kt = [i \in 1..Len(q) |-> 2 * i - 1],
                   !.kc = [i \in 1..Len(q) |-> q[i]],
                   !.seq = id,
                   !.tree = Balanced(id)],
         <<1>>, <<t.cap, INF>>, <<0, 0>>)
DStep(s, op) ==
  LET t == IF op.o = "de" THEN De(s, op.a)
           ELSE IF op.o = "dex" THEN NoOp(s, <<0>>)
           ELSE OStep(s, op)
  IN [t EXCEPT !.s.ph = s.ph + 1]

\* all patterns of equal neighbours; longer inputs without
Inputs == {q \in SR!SeqsUpTo(1..MaxN, MaxN) :
             \A i \in DOMAIN q : IF i = 1 THEN q[1] = 1 ELSE q[i] \in {q[i - 1], q[i - 1] + 1}}
          \cup {[i \in 1..n |-> i] : n \in 0..MaxLen}
DOps(s) ==
  CASE s.ph = 0 -> {Op("de", q) : q \in Inputs}
                   \cup {Op("dex", <<k>> \o q) : k \in 0..8, q \in {<<>>, <<1>>, <<1, 2>>, <<1, 1, 2>>}}
    [] s.ph = 1 -> IF s.nh = 0 THEN {} ELSE OSmallOps(s, 300, 300, 1)
    [] OTHER -> {}
DInv(s) == OInv(s)
DStepInv(s, op, t) == op.o \in {"de", "dex"} \/ OStepInv(s, op, [t EXCEPT !.ph = s.ph])
DView(s) == <<s.ph, IF s.ph = 1 THEN OView(s) ELSE <<>> >>
DTag(op, t) == <<>>
DStarts == {[pre |-> 0, s |-> New, q |-> <<>>]}
INSTANCE Explore WITH NRare <- {}, NGrow <- {},
                      NStep <- DStep, NOps <- DOps, NInv <- DInv, NStepInv <- DStepInv,
                      NProj <- OProj, NView <- DView, NTag <- DTag, Starts <- DStarts
=============================================================================

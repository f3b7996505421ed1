----------------------------- MODULE MCSerArena -----------------------------
(* Deserialization of basic arenas: de <<indices>>.                         *)
(* dex <<kind, indices>>: encodings that no arena has, which are rejected.  *)
EXTENDS ArenaCore

CONSTANTS MaxI, MaxN, SimDepth
VARIABLES st, hs, pre, tag

SR == INSTANCE Serial

New == [x \in {"ph"} |-> 0] @@ NewArena
De(s, q) ==
  IF SR!Distinct(q)
  THEN LET t == SR!Filled(s, q) IN Res(t, <<1>>, <<t.cap, INF>>, <<0, 0>>)
  ELSE NoOp(s, <<0>>)
DStep(s, op) ==
  LET t == IF op.o = "de" THEN De(s, op.a)
           ELSE IF op.o = "dex" THEN NoOp(s, <<0>>)
           ELSE Step(s, op)
  IN [t EXCEPT !.s.ph = s.ph + 1]

Inputs == SR!SeqsUpTo(1..MaxI, MaxN) \cup {<<255>>, <<255, 1>>, <<2, 255>>}
DOps(s) ==
  CASE s.ph = 0 -> {Op("de", q) : q \in Inputs}
                   \cup {Op("dex", <<k>> \o q) : k \in 0..7, q \in {q \in Inputs : SR!Distinct(q) /\ Len(q) <= 3}}
    [] s.ph = 1 -> IF s.nh = 0 THEN {} ELSE {op \in SmallOps(s, 300) : s.cap < 200 \/ op.o # "res"}
    [] OTHER -> {}
DInv(s) == DesignInv(s)
DStepInv(s, op, t) == op.o \in {"de", "dex"} \/ StepInv(s, op, [t EXCEPT !.ph = s.ph])
DView(s) == <<s.ph, IF s.ph = 1 THEN View(s) ELSE <<>> >>
DTag(op, t) == <<>>
DStarts == {[pre |-> 0, s |-> New, q |-> <<>>]}
INSTANCE Explore WITH NRare <- {}, NGrow <- {},
                      NStep <- DStep, NOps <- DOps, NInv <- DInv, NStepInv <- DStepInv,
                      NProj <- Proj, NView <- DView, NTag <- DTag, Starts <- DStarts
=============================================================================

----------------------------- MODULE MCSurject -----------------------------
(* Exhaustive exploration of surjection arenas.                             *)
EXTENDS SurjectCore

CONSTANTS MaxCap, PreludeN, Pairs, SimDepth
VARIABLES st, hs, pre, tag

MOps(s) == SOps(s, MaxCap)
Prelude == [i \in 1..PreludeN |-> Op("sins", <<0>>)] \o <<Op("cshr", <<>>)>>
MStarts == {[pre |-> 1, s |-> NewSurject, q |-> Prelude]}
           \cup (IF Pairs THEN {[pre |-> 0, s |-> NewSurject, q |-> <<>>]} ELSE {})
MTag(op, t) == IF Pairs THEN <<op.o, t.r # <<>> /\ t.r[1] = 0>> ELSE <<>>
MRare == {"clear", "cshr", "comp", "rems", "into"}
MGrow == {"sins", "skey", "union"}

INSTANCE Explore WITH NRare <- MRare, NGrow <- MGrow,
                      NStep <- SStep, NOps <- MOps, NInv <- SInv, NStepInv <- SStepInv,
                      NProj <- SProj, NView <- SView, NTag <- MTag, Starts <- MStarts
=============================================================================

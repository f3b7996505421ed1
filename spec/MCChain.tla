------------------------------ MODULE MCChain ------------------------------
(* Exhaustive exploration of chain arenas.                                  *)
EXTENDS ChainCore

CONSTANTS MaxCap, PreludeN, Pairs, SimDepth
VARIABLES st, hs, pre, tag

MOps(s) == COps(s, MaxCap)
Prelude == [i \in 1..PreludeN |-> Op("cnew", <<0>>)] \o <<Op("cshr", <<>>)>>
MStarts == {[pre |-> 1, s |-> NewChain, q |-> Prelude]}
           \cup (IF Pairs THEN {[pre |-> 0, s |-> NewChain, q |-> <<>>]} ELSE {})
MTag(op, t) == IF Pairs THEN <<op.o, t.r # <<>> /\ t.r[1] = 0>> ELSE <<>>
MRare == {"clear", "cshr", "into", "drain", "comp", "remc"}
MGrow == {"cins", "cnew", "cst", "cen", "conn", "exch"}

INSTANCE Explore WITH NRare <- MRare, NGrow <- MGrow,
                      NStep <- CStep, NOps <- MOps, NInv <- CInv, NStepInv <- CStepInv,
                      NProj <- CProj, NView <- CView, NTag <- MTag, Starts <- MStarts
=============================================================================

------------------------------- MODULE MCOrd -------------------------------
(* Exhaustive exploration of ordered arenas.  States differ in tree shape,  *)
(* pattern of equal keys and capacity.                                      *)
EXTENDS OrdCore

CONSTANTS MaxCap, MaxLen, MaxDup, PreludeN, SimDepth
VARIABLES st, hs, pre, tag

MOps(s) == OOps(s, MaxCap, MaxLen, MaxDup)
Prelude == [i \in 1..PreludeN |-> Op("oins", <<i - 1, 0, 0, 0>>)] \o <<Op("cshr", <<>>)>>
MStarts == {[pre |-> 1, s |-> NewOrd, q |-> Prelude]}
MTag(op, t) == <<>>
MRare == {"clear", "cshr", "comp", "drain", "into"}
MGrow == {"oins", "oeq", "oman"}

INSTANCE Explore WITH NRare <- MRare, NGrow <- MGrow,
                      NStep <- OStep, NOps <- MOps, NInv <- OInv, NStepInv <- OStepInv,
                      NProj <- OProj, NView <- OView, NTag <- MTag, Starts <- MStarts

\* the trees built by compression are well ranked at every size
ASSUME \A n \in 0..70 : LET t == Balanced([i \in 1..n |-> i]) IN Wavl(t) /\ Logarithmic(n, Height(t))
=============================================================================

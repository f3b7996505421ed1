----------------------------- MODULE MCPairOrd -----------------------------
EXTENDS OrdCore

CONSTANTS MaxCap, MaxLen, MaxDup, SimDepth
VARIABLES st, hs, pre, tag

PO(s) == OSmallOps(s, MaxCap, MaxLen, MaxDup)
INSTANCE PairOf WITH BNew <- NewOrd, BStep <- OStep, BOps <- PO, BInv <- OInv, BStepInv <- OStepInv,
                     BProj <- OProj, BView <- OView, BCopy <- OCopyFrom
MStarts == {[pre |-> 0, s |-> NewPair, q |-> <<>>]}
MTag(op, t) == <<>>
MRare == {w \o o : w \in {"x.", "y."}, o \in {"clear", "cshr", "comp", "drain", "into"}}
MGrow == {w \o o : w \in {"x.", "y."}, o \in {"oins", "oeq", "copy"}}

INSTANCE Explore WITH NRare <- MRare, NGrow <- MGrow,
                      NStep <- PStep, NOps <- POps, NInv <- PInv, NStepInv <- PStepInv,
                      NProj <- PProj, NView <- PView, NTag <- MTag, Starts <- MStarts
=============================================================================

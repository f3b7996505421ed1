--------------------------- MODULE MCPairSurject ---------------------------
EXTENDS SurjectCore

CONSTANTS MaxCap, SimDepth
VARIABLES st, hs, pre, tag

PO(s) == SSmallOps(s, MaxCap)
INSTANCE PairOf WITH BNew <- NewSurject, BStep <- SStep, BOps <- PO, BInv <- SInv, BStepInv <- SStepInv,
                     BProj <- SProj, BView <- SView, BCopy <- SCopyFrom
MStarts == {[pre |-> 0, s |-> NewPair, q |-> <<>>]}
MTag(op, t) == <<>>
MRare == {w \o o : w \in {"x.", "y."}, o \in {"clear", "cshr", "comp", "rems", "into"}}
MGrow == {w \o o : w \in {"x.", "y."}, o \in {"sins", "skey", "union", "copy"}}

INSTANCE Explore WITH NRare <- MRare, NGrow <- MGrow,
                      NStep <- PStep, NOps <- POps, NInv <- PInv, NStepInv <- PStepInv,
                      NProj <- PProj, NView <- PView, NTag <- MTag, Starts <- MStarts
=============================================================================

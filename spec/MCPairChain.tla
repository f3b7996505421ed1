---------------------------- MODULE MCPairChain ----------------------------
EXTENDS ChainCore

CONSTANTS MaxCap, SimDepth
VARIABLES st, hs, pre, tag

PO(s) == CSmallOps(s, MaxCap)
INSTANCE PairOf WITH BNew <- NewChain, BStep <- CStep, BOps <- PO, BInv <- CInv, BStepInv <- CStepInv,
                     BProj <- CProj, BView <- CView, BCopy <- CopyFrom
MStarts == {[pre |-> 0, s |-> NewPair, q |-> <<>>]}
MTag(op, t) == <<>>
MRare == {w \o o : w \in {"x.", "y."}, o \in {"clear", "cshr", "drain", "comp", "rmby", "remc", "into"}}
MGrow == {w \o o : w \in {"x.", "y."}, o \in {"ins", "cins", "cnew", "copy"}}

INSTANCE Explore WITH NRare <- MRare, NGrow <- MGrow,
                      NStep <- PStep, NOps <- POps, NInv <- PInv, NStepInv <- PStepInv,
                      NProj <- PProj, NView <- PView, NTag <- MTag, Starts <- MStarts
=============================================================================

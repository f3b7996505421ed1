------------------------------ MODULE MCArena ------------------------------
(* Exhaustive exploration of the basic arena.                               *)
EXTENDS ArenaCore

CONSTANTS MaxCap,     \* largest capacity
          PreludeN,   \* slots that get stale aliases in the initial history
          Pairs,      \* TRUE: the last operation is part of the view
          SimDepth

VARIABLES st, hs, pre, tag

MOps(s) == Ops(s, MaxCap)

\* fill every slot once and shrink, so that each slot has stale aliases
Prelude == [i \in 1..PreludeN |-> Op("ins", <<0>>)] \o <<Op("cshr", <<>>)>>

MStarts == {[pre |-> 0, s |-> NewArena, q |-> <<>>],
            [pre |-> 1, s |-> NewArena, q |-> Prelude]}
MTag(op, t) == IF Pairs THEN <<op.o, t.r # <<>> /\ t.r[1] = 0>> ELSE <<>>

MRare == {"clear", "cshr", "into", "drain", "comp", "rmby"}
MGrow == {"ins"}

INSTANCE Explore WITH NRare <- MRare, NGrow <- MGrow,
                      NStep <- Step, NOps <- MOps, NInv <- DesignInv, NStepInv <- StepInv,
                      NProj <- Proj, NView <- View, NTag <- MTag, Starts <- MStarts
=============================================================================

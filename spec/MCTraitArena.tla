---- MODULE MCTraitArena ----
(* Histories through the generic interface of basic arenas.  *)
EXTENDS ArenaCore

CONSTANTS MaxCap, SimDepth
VARIABLES st, hs, pre, tag

TStep(s, op) == Step(s, op)
TOps(s) == {op \in Ops(s, MaxCap) :
              /\ op.o \in {"ins", "rem", "set", "clear", "cshr", "inv"}
              /\ op.o = "ins" => op.a[1] = 0
              /\ op.o = "set" => op.a[2] = 0}
TTag(op, t) == <<op.o, t.r # <<>> /\ t.r[1] \in {0, -1}>>
TStarts == {[pre |-> 0, s |-> NewArena, q |-> <<>>]}
INSTANCE Explore WITH NRare <- {"clear", "cshr"}, NGrow <- {"ins", "cins", "cnew", "sins", "skey", "oins", "oeq"},
                      NStep <- TStep, NOps <- TOps, NInv <- DesignInv, NStepInv <- StepInv,
                      NProj <- Proj, NView <- View, NTag <- TTag, Starts <- TStarts
====

---- MODULE MCTraitSurject ----
(* Histories through the generic interface of surjection arenas without values.  *)
EXTENDS SurjectCore

CONSTANTS MaxCap, SimDepth
VARIABLES st, hs, pre, tag

\* there are no values to be returned
TStep(s, op) ==
  LET t == SStep(s, op)
      n == IF op.o = "remk" THEN 3 ELSE 1
  IN IF op.o \in {"remk", "union"} /\ t.r # <<0>> THEN [t EXCEPT !.r = SubSeq(t.r, 1, n)] ELSE t
\* sets are made through the concrete interface
TOps(s) == {op \in SOps(s, MaxCap) :
              /\ op.o \in {"sins", "skey", "union", "remk", "set", "clear", "cshr"}
              /\ op.o = "sins" => op.a[1] = 0
              /\ op.o = "skey" => op.a[1] # 0 /\ op.a[2] = 0
              /\ op.o = "union" => op.a[1] # 0 /\ op.a[2] # 0
              /\ op.o = "set" => op.a[2] = 0}
TTag(op, t) == <<op.o, t.r # <<>> /\ t.r[1] \in {0, -1}>>
TStarts == {[pre |-> 0, s |-> NewSurject, q |-> <<>>]}
INSTANCE Explore WITH NRare <- {"clear", "cshr"}, NGrow <- {"ins", "cins", "cnew", "sins", "skey", "oins", "oeq"},
                      NStep <- TStep, NOps <- TOps, NInv <- SInv, NStepInv <- SStepInv,
                      NProj <- SProj, NView <- SView, NTag <- TTag, Starts <- TStarts
====

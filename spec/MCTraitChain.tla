---- MODULE MCTraitChain ----
(* Histories through the generic interface of chain arenas.  *)
EXTENDS ChainCore

CONSTANTS MaxCap, SimDepth
VARIABLES st, hs, pre, tag

\* an insertion that is not possible panics
TStep(s, op) == LET t == CStep(s, op) IN IF op.o = "cins" /\ t.r = <<0>> THEN [t EXCEPT !.r = <<-1>>] ELSE t
\* cyclic chains are made through the concrete interface
TOps(s) == {op \in COps(s, MaxCap) :
              /\ op.o \in {"cins", "cnew", "rem", "set", "clear", "cshr", "inv"}
              /\ op.o = "cins" => op.a[3] = 0
              /\ op.o = "cnew" => op.a[1] = 2
              /\ op.o = "set" => op.a[2] = 0}
TTag(op, t) == <<op.o, t.r # <<>> /\ t.r[1] \in {0, -1}>>
TStarts == {[pre |-> 0, s |-> NewChain, q |-> <<>>]}
INSTANCE Explore WITH NRare <- {"clear", "cshr"}, NGrow <- {"ins", "cins", "cnew", "sins", "skey", "oins", "oeq"},
                      NStep <- TStep, NOps <- TOps, NInv <- CInv, NStepInv <- CStepInv,
                      NProj <- CProj, NView <- CView, NTag <- TTag, Starts <- TStarts
====

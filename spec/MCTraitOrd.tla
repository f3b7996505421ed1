---- MODULE MCTraitOrd ----
(* Histories through the generic interface of ordered arenas.  *)
EXTENDS OrdCore

CONSTANTS MaxCap, SimDepth, MaxLen
VARIABLES st, hs, pre, tag

\* insertion replaces the entry with an equal key, and returns only the pointer
TStep(s, op) == LET t == OStep(s, op) IN IF op.o \in {"oins", "oeq"} THEN [t EXCEPT !.r = <<t.r[1]>>] ELSE t
TOps(s) == {op \in OOps(s, MaxCap, MaxLen, 1) :
              /\ op.o \in {"oins", "oeq", "rem", "set", "clear", "cshr", "inv"}
              /\ op.o \in {"oins", "oeq"} => op.a[2] = 0
              /\ op.o = "set" => op.a[2] = 0}
TTag(op, t) == <<op.o, t.r # <<>> /\ t.r[1] \in {0, -1}>>
TStarts == {[pre |-> 0, s |-> NewOrd, q |-> <<>>]}
INSTANCE Explore WITH NRare <- {"clear", "cshr"}, NGrow <- {"ins", "cins", "cnew", "sins", "skey", "oins", "oeq"},
                      NStep <- TStep, NOps <- TOps, NInv <- OInv, NStepInv <- OStepInv,
                      NProj <- OProj, NView <- OView, NTag <- TTag, Starts <- TStarts
====

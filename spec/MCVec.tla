------------------------------- MODULE MCVec -------------------------------
(* The storage below the arenas: a growable array, indexed from 1.          *)
(* The capacity is only a design-level choice; what is demanded of the real *)
(* one is given by g = <<kind, n>>:                                         *)
(*   0 unchanged   1 never less than before, and at least n                 *)
(*   2 at least n, not more than before   3 zero   4 at least n             *)
(*   5 an element more: unchanged if there was room, else at least n        *)
EXTENDS Util

CONSTANTS MaxLen, MaxCap, MinCap, SimDepth
VARIABLES st, hs, pre, tag

Op(o, a) == [o |-> o, a |-> a]
VNew == [q |-> <<>>, nt |-> 0, cap |-> 0]
Pow2(n) == CHOOSE p \in {2 ^ i : i \in 0..12} : p >= n /\ \A i \in 0..12 : 2 ^ i >= n => 2 ^ i >= p
VRes(s, r, g) == [s |-> s, r |-> r, k |-> <<0, INF>>, g |-> g]

\* the capacity the design chooses
Reserved(s, n) == IF s.cap = 0 THEN Max2(MinCap, n) ELSE Max2(s.cap, Pow2(Len(s.q) + n))

Push(s) == VRes([s EXCEPT !.q = Append(@, <<s.nt + 1, 0>>), !.nt = @ + 1,
                          !.cap = IF Len(s.q) = s.cap THEN Reserved(s, 1) ELSE @],
                <<s.nt + 1>>, <<5, Len(s.q) + 1>>)
Pop(s) == IF s.q = <<>> THEN VRes(s, <<0>>, <<0, 0>>)
          ELSE VRes([s EXCEPT !.q = SubSeq(@, 1, Len(@) - 1)], <<1>> \o s.q[Len(s.q)], <<0, 0>>)
Bump(q, i) == [q EXCEPT ![i][2] = @ + 1]
Set(s, i) == IF i \notin DOMAIN s.q THEN VRes(s, <<0>>, <<0, 0>>)
             ELSE VRes([s EXCEPT !.q = Bump(@, i)], <<1>>, <<0, 0>>)
Get2(s, i, j) == IF i = j \/ i \notin DOMAIN s.q \/ j \notin DOMAIN s.q THEN VRes(s, <<0>>, <<0, 0>>)
                 ELSE VRes([s EXCEPT !.q = Bump(Bump(@, i), j)], <<1>> \o s.q[i] \o s.q[j], <<0, 0>>)
Reserve(s, n) == VRes([s EXCEPT !.cap = Reserved(s, n)], <<>>, <<1, Len(s.q) + n>>)
\* more than memory can be addressed: a panic
ReserveHuge(s) == VRes(s, <<-1>>, <<0, 0>>)
Shrink(s) == VRes([s EXCEPT !.cap = Len(s.q)], <<>>, <<2, Len(s.q)>>)
Clear(s) == VRes([s EXCEPT !.q = <<>>], <<>>, <<0, 0>>)
ClearShrink(s) == VRes([s EXCEPT !.q = <<>>, !.cap = 0], <<>>, <<3, 0>>)
\* continue with a clone (0), or with the original (1)
VClone(s, v) == IF v = 1 THEN VRes(s, <<>>, <<0, 0>>)
                ELSE VRes([s EXCEPT !.cap = IF Len(s.q) = 0 THEN 0 ELSE Max2(MinCap, Len(s.q))], <<>>, <<4, Len(s.q)>>)
\* cloning element n panics
ClonePanic(s, n) == VRes(s, <<-1>>, <<0, 0>>)
\* an empty array takes the place of this one
Take(s) == VRes([s EXCEPT !.q = <<>>, !.cap = 0], Flatten(s.q), <<3, 0>>)

VStep(s, op) ==
  LET a == op.a IN
  CASE op.o = "push"  -> Push(s)
    [] op.o = "pop"   -> Pop(s)
    [] op.o = "vset"  -> Set(s, a[1])
    [] op.o = "vget2" -> Get2(s, a[1], a[2])
    [] op.o = "res"   -> Reserve(s, a[1])
    [] op.o = "resx"  -> ReserveHuge(s)
    [] op.o = "stf"   -> Shrink(s)
    [] op.o = "clear" -> Clear(s)
    [] op.o = "cshr"  -> ClearShrink(s)
    [] op.o = "clone" -> VClone(s, a[1])
    [] op.o = "clonx" -> ClonePanic(s, a[1])
    [] op.o = "take"  -> Take(s)

VOps(s) ==
  LET n == Len(s.q)
      I == 1..(n + 2)
  IN   (IF n < MaxLen /\ (n < s.cap \/ Reserved(s, 1) <= MaxCap) THEN {Op("push", <<>>)} ELSE {})
  \cup {Op("pop", <<>>), Op("stf", <<>>), Op("clear", <<>>), Op("cshr", <<>>), Op("take", <<>>)}
  \cup {Op("vset", <<i>>) : i \in I}
  \cup {Op("vget2", <<i, j>>) : i \in I, j \in I}
  \cup {Op("res", <<k>>) : k \in {k \in 0..5 : Reserved(s, k) <= MaxCap}}
  \* counted down from the largest number, or from the largest that fits
  \cup {Op("resx", <<k, d>>) : k \in 0..1, d \in 0..2}
  \cup {Op("clone", <<v>>) : v \in 0..1}
  \cup {Op("clonx", <<i>>) : i \in 1..n}

VInv(s) == Len(s.q) <= s.cap /\ \A i, j \in DOMAIN s.q : i # j => s.q[i][1] # s.q[j][1]
VStepInv(s, op, t) ==
  /\ op.o \notin {"pop", "clear", "cshr", "take"} => \A i \in DOMAIN s.q : t.q[i][1] = s.q[i][1]
  /\ VStep(s, op).r \in {<<0>>, <<-1>>} => t = s
VProj(s) == [q |-> s.q]
VView(s) == <<Len(s.q), s.cap>>
VTag(op, t) == <<op.o>>
VStarts == {[pre |-> 0, s |-> VNew, q |-> <<>>]}
INSTANCE Explore WITH NRare <- {"clear", "cshr", "take", "stf"}, NGrow <- {"push"},
                      NStep <- VStep, NOps <- VOps, NInv <- VInv, NStepInv <- VStepInv,
                      NProj <- VProj, NView <- VView, NTag <- VTag, Starts <- VStarts
=============================================================================

---------------------------- MODULE MCSerSurject ----------------------------
(* Deserialization of surjection arenas:                                    *)
(* de <<number of keys, (index, prev, next, value)*, (index, count)*>>.     *)
EXTENDS SurjectCore

CONSTANTS Big, SimDepth
VARIABLES st, hs, pre, tag

SR == INSTANCE Serial

New == [x \in {"ph"} |-> 0] @@ NewSurject
Part(a, n, i) == [j \in 1..(Len(a) \div n) |-> a[n * (j - 1) + i]]

\* indices of the entries of the chain of entry i
RECURSIVE Reach(_, _, _)
Reach(q, next, S) ==
  LET T == S \cup {j \in DOMAIN q : \E i \in S : next[i] = q[j]}
  IN IF T = S THEN S ELSE Reach(q, next, T)

SetsOk(q, next, pv, vq, vc) ==
  /\ \A i \in DOMAIN q : next[i] # 0                                        \* only cycles
  /\ \A i \in DOMAIN q : \E v \in DOMAIN vq : vq[v] = pv[i]                 \* of existing values
  /\ \A v \in DOMAIN vq :
       LET K == {i \in DOMAIN q : pv[i] = vq[v]}
       IN K # {} /\ vc[v] = Cardinality(K) /\ \A i \in K : Reach(q, next, {i}) = K

De(s, a) ==
  LET nk == a[1]
      ks == SubSeq(a, 2, 4 * nk + 1)
      vs == SubSeq(a, 4 * nk + 2, Len(a))
      q == Part(ks, 4, 1)  prev == Part(ks, 4, 2)  next == Part(ks, 4, 3)  pv == Part(ks, 4, 4)
      vq == Part(vs, 2, 1)  vc == Part(vs, 2, 2)
  IN IF SR!Distinct(q) /\ SR!LinksOk(q, prev, next) /\ SR!Distinct(vq) /\ SetsOk(q, next, pv, vq, vc)
     THEN LET t == SR!Filled(s, q)
              vix == SeqOf(RangeOf(vq))
              top == IF vq = <<>> THEN 0 ELSE MaxOf(RangeOf(vq))
              ix == SeqOf(RangeOf(q))
          IN SRes([t EXCEPT !.set = [h \in 1..Len(ix) |-> PosIn(vix, pv[PosIn(q, ix[h])])],
                            !.val = [v \in 1..Len(vix) |-> <<nk + PosIn(vq, vix[v]), 0>>],
                            !.vsl = [v \in 1..Len(vix) |-> vix[v]],
                            !.nt = nk + Len(vq),
                            !.nv = Len(vix),
                            !.vcap = top,
                            !.vfr = SR!Descending((1..top) \ RangeOf(vq))],
                  <<1>>, <<t.cap, INF>>, <<top, INF>>, <<0, 0>>)
     ELSE SNoOp(s, <<0>>)
DStep(s, op) ==
  LET t == IF op.o = "de" THEN De(s, op.a)
           ELSE IF op.o = "dex" THEN SNoOp(s, <<0>>)
           ELSE SStep(s, op)
  IN [t EXCEPT !.s.ph = s.ph + 1]

Join(q, prev, next, pv, vs) ==
  <<Len(q)>> \o Flatten([i \in DOMAIN q |-> <<q[i], prev[i], next[i], pv[i]>>]) \o vs
\* values with counts from C
Vals(C) == {<<>>} \cup {<<i, c>> : i \in 1..2, c \in C}
           \cup {<<1, c, 2, d>> : c \in C, d \in C} \cup {<<2, c, 1, d>> : c \in C, d \in C}
           \cup {<<1, c, 1, c>> : c \in C}
Free(q, L, C) == {Join(q, p, n, v, w) : p \in [DOMAIN q -> L], n \in [DOMAIN q -> L],
                                       v \in [DOMAIN q -> 1..3], w \in Vals(C)}
Linked(n, C) == {Join([i \in 1..n |-> i], SR!Back(f), f, v, w) :
                   f \in SR!Injections(n), v \in [1..n -> 1..2], w \in Vals(C)}
Four == {<<1, 4>>, <<2, 4>>, <<1, 2, 2, 2>>, <<1, 3, 2, 1>>, <<1, 1, 2, 3>>, <<1, 2, 2, 1>>, <<1, 4, 2, 2>>}
Inputs == {<<0>>, <<0, 1, 1>>} \cup Free(<<1>>, 0..2, 1..2) \cup Free(<<2>>, 0..3, 1..2)
          \cup Free(<<1, 2>>, 0..2, 1..2) \cup Linked(3, 1..3)
          \cup {Join([i \in 1..4 |-> i], SR!Back(f), f, v, w) :
                  f \in SR!Injections(4), v \in [1..4 -> 1..2], w \in Four}
          \cup (IF Big THEN Free(<<2, 1>>, 0..3, 1..3) \cup Free(<<1, 3>>, {0, 1, 2, 3}, 1..2) ELSE {})
DOps(s) ==
  CASE s.ph = 0 -> {Op("de", q) : q \in Inputs}
                   \cup {Op("dex", <<k>> \o q) : k \in 0..8,
                         q \in {<<0>>, <<1, 1, 1, 1, 1, 1, 1>>, <<2, 1, 2, 2, 1, 2, 1, 1, 1, 1, 2>>,
                                <<2, 1, 1, 1, 2, 3, 3, 3, 1, 1, 1, 2, 1>>}}
    [] s.ph = 1 -> IF s.nh = 0 THEN {} ELSE SSmallOps(s, 300)
    [] OTHER -> {}
DInv(s) == SInv(s)
DStepInv(s, op, t) == op.o \in {"de", "dex"} \/ SStepInv(s, op, [t EXCEPT !.ph = s.ph])
DView(s) == <<s.ph, IF s.ph = 1 THEN SView(s) ELSE <<>> >>
DTag(op, t) == <<>>
DStarts == {[pre |-> 0, s |-> New, q |-> <<>>]}
INSTANCE Explore WITH NRare <- {}, NGrow <- {},
                      NStep <- DStep, NOps <- DOps, NInv <- DInv, NStepInv <- DStepInv,
                      NProj <- SProj, NView <- DView, NTag <- DTag, Starts <- DStarts
=============================================================================

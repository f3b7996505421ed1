----------------------------- MODULE MCSerChain -----------------------------
(* Deserialization of chain arenas: de <<index, prev, next, ...>>.          *)
EXTENDS ChainCore

CONSTANTS Big, SimDepth
VARIABLES st, hs, pre, tag

SR == INSTANCE Serial

New == [x \in {"ph"} |-> 0] @@ NewChain
Part(a, n, i) == [j \in 1..(Len(a) \div n) |-> a[n * (j - 1) + i]]
De(s, a) ==
  LET q == Part(a, 3, 1)  prev == Part(a, 3, 2)  next == Part(a, 3, 3)
  IN IF SR!Distinct(q) /\ SR!LinksOk(q, prev, next)
     THEN LET t == SR!Filled(s, q)
          IN Res([t EXCEPT !.nxt = SR!NextOf(q, next)], <<1>>, <<t.cap, INF>>, <<0, 0>>)
     ELSE NoOp(s, <<0>>)
DStep(s, op) ==
  LET t == IF op.o = "de" THEN De(s, op.a)
           ELSE IF op.o = "dex" THEN NoOp(s, <<0>>)
           ELSE CStep(s, op)
  IN [t EXCEPT !.s.ph = s.ph + 1]

Join(q, prev, next) == Flatten([i \in DOMAIN q |-> <<q[i], prev[i], next[i]>>])
\* any links at all
Free(q, L) == {Join(q, p, n) : p \in [DOMAIN q -> L], n \in [DOMAIN q -> L]}
\* consistent links, of which one is replaced
Almost(n) ==
  UNION {LET b == SR!Back(f)  id == [i \in 1..n |-> i]
         IN {Join(id, b, f)} \cup {Join(id, [b EXCEPT ![i] = x], f) : i \in 1..n, x \in 0..(n + 1)}
                             \cup {Join(id, b, [f EXCEPT ![i] = x]) : i \in 1..n, x \in 0..(n + 1)}
         : f \in SR!Injections(n)}
Inputs == {<<>>} \cup Free(<<1>>, 0..2) \cup Free(<<3>>, 0..4)
          \cup UNION {Free(q, 0..3) : q \in {<<1, 2>>, <<2, 1>>, <<1, 3>>, <<1, 1>>}}
          \cup Free(<<1, 2, 3>>, 0..(IF Big THEN 4 ELSE 3)) \cup Almost(4)
          \cup (IF Big THEN Free(<<3, 1, 4>>, {0, 1, 2, 3, 4}) \cup Free(<<1, 2, 1>>, 0..2) ELSE {})
DOps(s) ==
  CASE s.ph = 0 -> {Op("de", q) : q \in Inputs}
                   \cup {Op("dex", <<k>> \o q) : k \in 0..7,
                         q \in {<<>>, <<1, 0, 0>>, <<2, 2, 2>>, <<1, 2, 2, 2, 1, 1>>, <<1, 0, 3, 3, 1, 0>>}}
    [] s.ph = 1 -> IF s.nh = 0 \/ s.nh > 3 THEN {} ELSE CSmallOps(s, 300)
    [] OTHER -> {}
DInv(s) == CInv(s)
DStepInv(s, op, t) == op.o \in {"de", "dex"} \/ CStepInv(s, op, [t EXCEPT !.ph = s.ph])
DView(s) == <<s.ph, IF s.ph = 1 THEN CView(s) ELSE <<>> >>
DTag(op, t) == <<>>
DStarts == {[pre |-> 0, s |-> New, q |-> <<>>]}
INSTANCE Explore WITH NRare <- {}, NGrow <- {},
                      NStep <- DStep, NOps <- DOps, NInv <- DInv, NStepInv <- DStepInv,
                      NProj <- CProj, NView <- DView, NTag <- DTag, Starts <- DStarts
=============================================================================

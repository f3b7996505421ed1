------------------------------- MODULE Serial -------------------------------
(* What deserialization accepts, and which arena it yields.  An input is a  *)
(* sequence of entries, in the order in which they are written down; the    *)
(* handles of the resulting arena are numbered by ascending index.          *)
EXTENDS Util

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Distinct(q) == \A i, j \in DOMAIN q : q[i] = q[j] => i = j
Descending(S) == LET q == SeqOf(S) IN [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

\* partial injections of 1..n: the ways n entries can be linked
Injections(n) == {f \in [1..n -> 0..n] : \A x, y \in 1..n : f[x] = f[y] /\ f[x] # 0 => x = y}
Back(f) == [x \in DOMAIN f |-> IF \E y \in DOMAIN f : f[y] = x THEN CHOOSE y \in DOMAIN f : f[y] = x ELSE 0]

\* an arena with a live entry for each index of q, entry i of the input has token i
Filled(new, q) ==
  LET ix == SeqOf(RangeOf(q))
      top == IF q = <<>> THEN 0 ELSE MaxOf(RangeOf(q))
  IN [new EXCEPT !.live = [h \in 1..Len(ix) |-> <<PosIn(q, ix[h]), 0>>],
                 !.nh = Len(ix),
                 !.nt = Len(q),
                 !.cap = top,
                 !.raw = [h \in 1..Len(ix) |-> <<ix[h], 2>>],
                 !.fr = Descending((1..top) \ RangeOf(q))]
Handle(q, i) == PosIn(SeqOf(RangeOf(q)), i)

\* links: prev[i], next[i] belong to entry i of the input, 0 stands for none
LinksOk(q, prev, next) ==
  \A i \in DOMAIN q :
     /\ prev[i] # 0 => \E j \in DOMAIN q : q[j] = prev[i] /\ next[j] = q[i]
     /\ next[i] # 0 => \E j \in DOMAIN q : q[j] = next[i] /\ prev[j] = q[i]
NextOf(q, next) ==
  LET D == {i \in DOMAIN q : next[i] # 0}
  IN [h \in {Handle(q, q[i]) : i \in D} |-> Handle(q, next[CHOOSE i \in D : Handle(q, q[i]) = h])]
=============================================================================

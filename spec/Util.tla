------------------------------- MODULE Util -------------------------------
(* Small helpers shared by every module of the specification.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

INF == 1000000000          \* "no upper bound" in an interval

EmptyFun == [x \in {} |-> 0]

Drop(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]
Put(f, k, v) == (k :> v) @@ f

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

\* the ascending sequence of a finite set of integers
SE == INSTANCE SequencesExt
SeqOf(S) == SE!SetToSortSeq(S, LAMBDA x, y : x < y)

RangeOf(q) == {q[i] : i \in DOMAIN q}
FRange(f) == {f[x] : x \in DOMAIN f}

RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flatten(Tail(q))

PosIn(q, x) == CHOOSE i \in DOMAIN q : q[i] = x

Injective(f) == \A x, y \in DOMAIN f : f[x] = f[y] => x = y
=============================================================================

------------------------------ MODULE OrdCore ------------------------------
(* Ordered arenas.  `live` maps a handle to its value <<token, content>>,   *)
(* `kt` to its key token.  Keys are abstract: `kc` maps a handle to a key   *)
(* class, two keys are equal iff they have the same class, and `seq` is the *)
(* sequence of all live handles in key order.  A new key is described by    *)
(* the gap of `seq` it falls into, or by the entry it is equal to.          *)
(*                                                                          *)
(* How the implementation realises this, a weak AVL tree with ranks, is     *)
(* described by `tree`: <<>> or <<left, handle, rank, right>>.  The         *)
(* conformance checks never compare tree shapes, but the shape decides      *)
(* which of several equal keys a search meets, and distinguishes states     *)
(* during the exploration.                                                  *)
EXTENDS ArenaCore

NewOrd ==
  [x \in {"kt", "kc"} |-> EmptyFun]
  @@ [x \in {"seq", "tree"} |-> <<>>]
  @@ NewArena

-----------------------------------------------------------------------------
(* The tree.                                                                *)

Leaf(h) == << <<>>, h, 1, <<>> >>
Rk(t) == IF t = <<>> THEN 0 ELSE t[3]
RECURSIVE Sz(_)
Sz(t) == IF t = <<>> THEN 0 ELSE Sz(t[1]) + 1 + Sz(t[4])
RECURSIVE Inorder(_)
Inorder(t) == IF t = <<>> THEN <<>> ELSE Inorder(t[1]) \o <<t[2]>> \o Inorder(t[4])
RECURSIVE MaxH(_)
MaxH(t) == IF t[4] = <<>> THEN t[2] ELSE MaxH(t[4])
RECURSIVE Height(_)
Height(t) == IF t = <<>> THEN 0 ELSE 1 + Max2(Height(t[1]), Height(t[4]))
RECURSIVE MapTree(_, _)
MapTree(t, f) == IF t = <<>> THEN <<>> ELSE <<MapTree(t[1], f), f[t[2]], t[3], MapTree(t[4], f)>>
RECURSIVE Shape(_)
Shape(t) == IF t = <<>> THEN 0 ELSE <<Shape(t[1]), t[3], Shape(t[4])>>

\* an insertion made the left (right) child's rank equal to the root's
FixInsL(t) ==
  LET l == t[1] IN
  IF Rk(l) < t[3] THEN t
  ELSE IF Rk(t[4]) + 1 = t[3] THEN [t EXCEPT ![3] = @ + 1]
  ELSE IF Rk(l[1]) + 1 = l[3] THEN <<l[1], l[2], l[3], <<l[4], t[2], Rk(l[1]), t[4]>> >>
  ELSE LET m == l[4] IN << <<l[1], l[2], m[3], m[1]>>, m[2], l[3], <<m[4], t[2], m[3], t[4]>> >>
FixInsR(t) ==
  LET r == t[4] IN
  IF Rk(r) < t[3] THEN t
  ELSE IF Rk(t[1]) + 1 = t[3] THEN [t EXCEPT ![3] = @ + 1]
  ELSE IF Rk(r[4]) + 1 = r[3] THEN << <<t[1], t[2], Rk(r[4]), r[1]>>, r[2], r[3], r[4]>>
  ELSE LET m == r[1] IN << <<t[1], t[2], m[3], m[1]>>, m[2], r[3], <<m[4], r[2], m[3], r[4]>> >>

\* h becomes the entry after the first n ones
RECURSIVE TreeIns(_, _, _)
TreeIns(t, n, h) ==
  IF t = <<>> THEN Leaf(h)
  ELSE LET z == Sz(t[1]) IN
       IF n <= z THEN FixInsL([t EXCEPT ![1] = TreeIns(t[1], n, h)])
       ELSE FixInsR([t EXCEPT ![4] = TreeIns(t[4], n - z - 1, h)])

FixDel(t) ==
  LET r == t[3]
      L == Rk(t[1])
      R == Rk(t[4])
  IN IF t[1] = <<>> /\ t[4] = <<>> THEN [t EXCEPT ![3] = 1]
     ELSE IF L + 2 >= r /\ R + 2 >= r THEN t
     ELSE IF L + 2 < r
     THEN LET s == t[4] IN
          IF R + 2 = r THEN [t EXCEPT ![3] = R + 1]
          ELSE IF Rk(s[4]) + 1 = R THEN << <<t[1], t[2], Rk(s[1]) + 1, s[1]>>, s[2], r, s[4]>>
          ELSE IF Rk(s[1]) + 2 = R THEN <<t[1], t[2], L + 2, [s EXCEPT ![3] = L + 1]>>
          ELSE LET a == s[1] IN << <<t[1], t[2], a[3], a[1]>>, a[2], r, <<a[4], s[2], a[3], s[4]>> >>
     ELSE LET s == t[1] IN
          IF L + 2 = r THEN [t EXCEPT ![3] = L + 1]
          ELSE IF Rk(s[1]) + 1 = L THEN <<s[1], s[2], r, <<s[4], t[2], Rk(s[4]) + 1, t[4]>> >>
          ELSE IF Rk(s[4]) + 2 = L THEN <<[s EXCEPT ![3] = R + 1], t[2], R + 2, t[4]>>
          ELSE LET a == s[4] IN << <<s[1], s[2], a[3], a[1]>>, a[2], r, <<a[4], t[2], a[3], t[4]>> >>

\* without the n-th entry
RECURSIVE TreeDel(_, _)
TreeDel(t, n) ==
  LET z == Sz(t[1]) + 1 IN
  IF n < z THEN FixDel([t EXCEPT ![1] = TreeDel(t[1], n)])
  ELSE IF n > z THEN FixDel([t EXCEPT ![4] = TreeDel(t[4], n - z)])
  ELSE IF t[1] # <<>> THEN FixDel(<<TreeDel(t[1], z - 1), MaxH(t[1]), t[3], t[4]>>)
  ELSE IF t[4] # <<>> THEN FixDel(<< <<>>, t[4][2], t[3], TreeDel(t[4], 1)>>)
  ELSE <<>>

\* the tree that compression and deserialization build; lvl is the rank
RECURSIVE Build(_, _)
Build(q, lvl) ==
  LET n == Len(q)
      m == n \div 2 + 1
      rank == IF n = 1 THEN 1 ELSE IF n = 2 THEN 2 ELSE IF n \in 3..4 THEN 3 ELSE lvl
  IN IF n = 0 THEN <<>>
     ELSE <<Build(SubSeq(q, 1, m - 1), lvl - 1), q[m], rank, Build(SubSeq(q, m + 1, n), lvl - 1)>>
RECURSIVE Log2Up(_, _)
Log2Up(n, i) == IF 2^i >= n THEN i ELSE Log2Up(n, i + 1)
Balanced(q) == Build(q, Log2Up(Max2(Len(q) - 1, 1), 0) + 1)

\* rank rules of a weak AVL tree
RECURSIVE Wavl(_)
Wavl(t) ==
  t = <<>> \/ /\ t[3] - Rk(t[1]) \in 1..2 /\ t[3] - Rk(t[4]) \in 1..2
              /\ (t[1] = <<>> /\ t[4] = <<>> => t[3] = 1)
              /\ Wavl(t[1]) /\ Wavl(t[4])

\* a search of c comparisons is fast enough for n entries
Logarithmic(n, c) == 2^c <= (n + 1) * (n + 1)

-----------------------------------------------------------------------------
InsertAt(q, n, h) == SubSeq(q, 1, n) \o <<h>> \o SubSeq(q, n + 1, Len(q))
DeleteAt(q, n) == SubSeq(q, 1, n - 1) \o SubSeq(q, n + 1, Len(q))
ClassAt(s, i) == s.kc[s.seq[i]]
Class(s, c) == {h \in Lives(s) : s.kc[h] = c}
\* gaps into which a key of class c may go: after the first lo .. hi entries
GapLo(s, c) == MinOf({PosIn(s.seq, h) : h \in Class(s, c)}) - 1
GapHi(s, c) == MaxOf({PosIn(s.seq, h) : h \in Class(s, c)})
IsGap(s, n) == n = 0 \/ n = Count(s) \/ ClassAt(s, n) # ClassAt(s, n + 1)

\* the entry of class c that a search from the root meets first
RECURSIVE Meets(_, _, _)
Meets(s, t, c) ==
  IF s.kc[t[2]] = c THEN t[2]
  ELSE IF GapHi(s, c) < PosIn(s.seq, t[2]) THEN Meets(s, t[1], c) ELSE Meets(s, t[4], c)

\* a new entry after the first n ones; class 0: a new key
OAdd(s, n, c) ==
  LET g == DoubleIfFull(s)
      t == Alloc([g EXCEPT !.nt = @ + 2], <<s.nt + 2, 0>>)
  IN Res([t EXCEPT !.kt = Put(@, t.nh, s.nt + 1),
                   !.kc = Put(@, t.nh, IF c = 0 THEN s.nt + 1 ELSE c),
                   !.seq = InsertAt(@, n, t.nh),
                   !.tree = IF Design THEN TreeIns(@, n, t.nh) ELSE @],
         <<t.nh, s.nt + 1, s.nt + 2>>, IF Full(s) THEN <<s.cap + 1, INF>> ELSE Same(s), <<0, 0>>)

\* the value of h is replaced; the given key and the old value come back
OReplace(s, h) ==
  NoOp([s EXCEPT !.live[h] = <<s.nt + 2, 0>>, !.nt = @ + 2],
       <<h, s.nt + 2, s.nt + 1, Tok(s, h), Con(s, h)>>)

\* a key that is not stored, at gap n, through entry point v:
\* 0 insert  1 insert_nonhereditary  2 insert_linear  3 insert_nonhereditary_linear
\* (the other arguments are the hint and the step limit)
OInsert(s, n) == OAdd(s, n, 0)

\* a key equal to the one of h; n is the gap that a search chooses
OInsertEq(s, h, v, n) == IF v \in {0, 2} THEN OReplace(s, h) ELSE OAdd(s, n, s.kc[h])

\* positional insertion, d: 0 before  1 after  2 at; the key is a new one or
\* (same = 1) equal to the one of h
OManual(s, h, d, same) ==
  IF ~IsLive(s, h) THEN NoOp(s, <<-1>>)
  ELSE LET i == PosIn(s.seq, h)
           c == IF same = 1 THEN s.kc[h] ELSE 0
       IN IF d = 2 THEN OReplace(s, h) ELSE OAdd(s, IF d = 0 THEN i - 1 ELSE i, c)

\* an insertion like OInsert in which a comparison panics
OInsertPanic(s) == Res(s, <<-1>>, IF Full(s) THEN <<s.cap, INF>> ELSE Same(s), <<0, 0>>)

OInsertEmpty(s) == IF Count(s) = 0 THEN OAdd(s, 0, 0) ELSE NoOp(s, <<0>>)

ORemove(s, h) ==
  IF ~IsLive(s, h) THEN NoOp(s, <<0>>)
  ELSE LET t == Remove(s, h)
           i == PosIn(s.seq, h)
       IN [t EXCEPT !.r = <<1, s.kt[h], Tok(s, h), Con(s, h)>>,
                    !.s.kt = Drop(@, {h}), !.s.kc = Drop(@, {h}),
                    !.s.seq = DeleteAt(@, i),
                    !.s.tree = IF Design THEN TreeDel(@, i) ELSE @]

\* handles are exchanged according to f
ORename(s, t, f) ==
  LET new == {f[h] : h \in DOMAIN f}
      inv == [x \in new |-> CHOOSE h \in DOMAIN f : f[h] = x]
  IN [t EXCEPT !.kt = [x \in new |-> s.kt[inv[x]]],
               !.kc = [x \in new |-> s.kc[inv[x]]],
               !.seq = [i \in DOMAIN s.seq |-> f[s.seq[i]]],
               !.tree = IF Design THEN MapTree(@, f) ELSE @]
Reissued(s, h) == [x \in Lives(s) |-> IF x = h THEN s.nh + 1 ELSE x]

OInvalidate(s, h) ==
  LET t == Invalidate(s, h)
  IN IF ~IsLive(s, h) THEN t ELSE [t EXCEPT !.s = ORename(s, @, Reissued(s, h))]
OReplaceUpdate(s, h) ==
  LET t == ReplaceUpdate(s, h)
  IN IF ~IsLive(s, h) THEN t ELSE [t EXCEPT !.s = ORename(s, @, Reissued(s, h))]

OEmptied(t) == [t EXCEPT !.s.kt = EmptyFun, !.s.kc = EmptyFun, !.s.seq = <<>>, !.s.tree = <<>>]

OCompress(s, v) ==
  LET ord == SeqOf(Lives(s))
      f == [h \in Lives(s) |-> s.nh + PosIn(ord, h)]
      u == ORename(s, Rename(s, s.seq), f)
  IN Res([u EXCEPT !.tree = IF Design THEN Balanced(u.seq) ELSE @],
         RenamePairs(s), <<Count(s), Count(s)>>, <<1, 1>>)

\* n entries, the least ones, are taken out one by one, the rest is dropped
ODrain(s, n) ==
  LET m == Min2(n, Count(s))
      rest == IF m < Count(s) THEN 1 ELSE 0
      t == KillAllFresh(s)
  IN OEmptied(Res(IncGen(t, m + rest), <<m>>, Same(s),
                  IF Count(s) = 0 THEN <<0, 1>> ELSE <<1, Count(s) + 1>>))

OConsume(s, n, v) == Consumed(s, NewOrd, n, v)

OCopyFrom(s, x) == CopyFrom(s, x)

OStep(s, op) ==
  LET a == op.a IN
  CASE op.o = "oins"  -> OInsert(s, a[1])
    [] op.o = "oinx"  -> OInsertPanic(s)
    [] op.o = "oeq"   -> OInsertEq(s, a[1], a[2], a[5])
    [] op.o = "oman"  -> OManual(s, a[1], a[2], a[3])
    [] op.o = "oemp"  -> OInsertEmpty(s)
    [] op.o = "rem"   -> ORemove(s, a[1])
    [] op.o = "inv"   -> OInvalidate(s, a[1])
    [] op.o = "ru"    -> OReplaceUpdate(s, a[1])
    [] op.o = "clear" -> OEmptied(Clear(s))
    [] op.o = "cshr"  -> OEmptied(ClearShrink(s))
    [] op.o = "comp"  -> OCompress(s, a[1])
    [] op.o = "drain" -> ODrain(s, a[1])
    [] op.o = "into"  -> OConsume(s, a[1], a[2])
    [] op.o \in {"rk", "set", "seta", "swap", "get2", "res"} -> Step(s, op)

OMustPanic(s, op) ==
  \/ op.o \in {"oins", "oeq", "oman", "oemp"} /\ Count(s) = s.mi
       /\ ~(op.o = "oeq" /\ op.a[2] \in {0, 2}) /\ ~(op.o = "oman" /\ op.a[2] = 2) /\ op.o # "oemp"
  \/ op.o = "oman" /\ ~IsLive(s, op.a[1])
  \/ op.o = "res" /\ Count(s) + op.a[1] > s.mi
  \/ LET g == OStep(s, op).g IN g[1] > 0 /\ s.gen + g[1] > s.mg
OMayPanic(s, op) ==
  \/ op.o = "res" /\ s.cap + op.a[1] > s.mi
  \/ LET g == OStep(s, op).g IN g[2] < INF /\ s.gen + g[2] > s.mg

\* every operation explored; ml bounds the number of entries, md the number of
\* entries that are equal to their predecessor
Dups(s) == Cardinality({i \in 2..Count(s) : ClassAt(s, i) = ClassAt(s, i - 1)})
Single(s, h) == Cardinality(Class(s, s.kc[h])) = 1
OOps(s, mc, ml, md) ==
  LET L == Lives(s)
      H == L \cup {0}
      grow == Count(s) < ml /\ (~Full(s) \/ Max2(1, 2 * s.cap) <= mc)
      dup == grow /\ Dups(s) < md
      gaps == {n \in 0..Count(s) : IsGap(s, n)}
      eqArgs(h, v, hint, num) ==
        LET c == s.kc[h]
            x == IF v = 1 THEN Meets(s, s.tree, c) ELSE h
        IN <<h, v, hint, num, PosIn(s.seq, x) - 1, GapLo(s, c), GapHi(s, c)>>
  IN   (IF grow THEN {Op("oins", <<n, v, 0, 0>>) : n \in gaps, v \in 0..1}
                     \cup {Op("oins", <<n, 2 + ((n + h + (i \div 2)) % 2), h, i>>) : n \in gaps, h \in H, i \in {0, 1, 3}}
                ELSE {})
  \* the k-th comparison panics; both neighbours have to be compared
  \cup {Op("oinx", <<x[1], v, IF v < 2 THEN 0 ELSE s.seq[1], 1, x[2]>>) : v \in 0..3,
          x \in {x \in gaps \X (1..2) : Count(s) > 0 /\ (x[2] = 2 => x[1] \in 1..(Count(s) - 1))}}
  \cup {Op("oeq", eqArgs(h, 0, 0, 0)) : h \in {h \in L : Single(s, h)}}
  \cup {Op("oeq", eqArgs(h, 2, x, i)) : h \in {h \in L : Single(s, h)}, x \in H, i \in {0, 1, 3}}
  \cup (IF dup THEN {Op("oeq", eqArgs(h, 1, 0, 0)) : h \in L}
                    \cup {Op("oeq", eqArgs(h, 3, x, i)) : h \in {h \in L : Single(s, h)}, x \in H, i \in {0, 2}}
               ELSE {})
  \cup (IF grow THEN {Op("oman", <<h, 0, 0>>) : h \in {h \in L : IsGap(s, PosIn(s.seq, h) - 1)}}
                     \cup {Op("oman", <<h, 1, 0>>) : h \in {h \in L : IsGap(s, PosIn(s.seq, h))}}
                ELSE {})
  \cup (IF dup THEN {Op("oman", <<h, d, 1>>) : h \in L, d \in 0..1} ELSE {})
  \cup {Op("oman", <<h, 2, 1>>) : h \in H}
  \cup {Op("oman", <<0, d, 0>>) : d \in 0..1}
  \cup (IF Count(s) > 0 \/ grow THEN {Op("oemp", <<>>)} ELSE {})
  \cup {Op(o, <<h>>) : o \in {"rem", "inv", "rk", "ru"}, h \in H}
  \cup {Op("set", <<h, v>>) : h \in H, v \in 0..2}
  \cup {Op("seta", <<0>>)}
  \cup {Op(o, <<h1, h2>>) : o \in {"swap", "get2"}, h1 \in H, h2 \in H}
  \cup {Op("clear", <<>>), Op("cshr", <<>>)}
  \cup {Op("comp", <<v>>) : v \in 0..2}
  \cup {Op("res", <<n>>) : n \in {n \in 0..1 : s.cap + n <= mc}}
  \cup {Op("drain", <<n>>) : n \in 0..(Count(s) + 1)}
  \cup {Op("into", <<n, v>>) : n \in 0..(Count(s) + 1), v \in 0..1}
  \cup {Op("into", <<n, 2>>) : n \in {0, 1, Min2(mc, 3)}}

OSmallOps(s, mc, ml, md) ==
  {op \in OOps(s, mc, ml, md) :
     /\ op.o \in {"oins", "oeq", "rem", "inv", "ru", "set", "swap", "clear", "cshr", "comp", "drain", "oman", "res"}
     /\ op.o \in {"oins", "oeq"} => op.a[2] < 2
     /\ op.o = "oins" => op.a[2] = 0
     /\ op.o \in {"oman", "rem", "inv", "ru", "set", "swap"} => op.a[1] # 0
     /\ op.o = "oman" => op.a[2] = 0 /\ op.a[3] = 1
     /\ op.o = "comp" => op.a[1] = 0
     /\ op.o = "set" => op.a[2] = 0
     /\ op.o = "swap" => op.a[1] < op.a[2]
     /\ op.o = "res" => op.a[1] = 1
     /\ op.o = "drain" => op.a[1] = 1}

-----------------------------------------------------------------------------
OInv(s) ==
  /\ DesignInv(s)
  /\ DOMAIN s.kt = Lives(s) /\ DOMAIN s.kc = Lives(s)
  /\ RangeOf(s.seq) = Lives(s) /\ Len(s.seq) = Count(s)
  \* equal keys are neighbours
  /\ \A i, j \in 1..Len(s.seq) : i < j /\ ClassAt(s, i) = ClassAt(s, j) =>
       \A k \in i..j : ClassAt(s, k) = ClassAt(s, i)
  /\ Design => /\ Inorder(s.tree) = s.seq
               /\ Wavl(s.tree)
               /\ Logarithmic(Count(s), Height(s.tree))

\* the relative order of entries never changes
Order(s, S) == [i \in 1..Cardinality(S) |-> SelectSeq(s.seq, LAMBDA h : h \in S)[i]]
OTargets(s, op) ==
  CASE op.o \in {"oeq", "oman"} -> {op.a[1]}
    [] op.o \in {"oins", "oinx", "oemp"} -> {}
    [] OTHER -> Targets(s, op)
OStepInv(s, op, t) ==
  /\ op.o # "into" =>
       /\ s.dead \subseteq t.dead
       /\ \A h \in Lives(s) \ OTargets(s, op) : h \in Lives(t) /\ t.live[h] = s.live[h]
       /\ \A h \in Lives(s) \cap Lives(t) : t.kt[h] = s.kt[h] /\ t.kc[h] = s.kc[h]
       /\ LET S == Lives(s) \cap Lives(t) IN Order(s, S) = Order(t, S)
  /\ OStep(s, op).r \in {<<0>>, <<-1>>} /\ op.o \notin {"seta", "drain", "into"} => t = s

OLiveSeq(s) == LET q == SeqOf(Lives(s)) IN [i \in 1..Len(q) |-> <<q[i], Tok(s, q[i]), Con(s, q[i]), s.kt[q[i]], s.kc[q[i]]>>]
OProj(s) == [live |-> OLiveSeq(s), nh |-> s.nh, cap |-> s.cap, gen |-> s.gen, seq |-> s.seq]
OView(s) == <<s.cap, Shape(s.tree), [i \in 2..Count(s) |-> ClassAt(s, i) = ClassAt(s, i - 1)]>>
=============================================================================

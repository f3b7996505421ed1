----------------------------- MODULE ArenaCore -----------------------------
(* The basic arena.                                                         *)
(*                                                                          *)
(* What a user sees is described with handles: handle n is the n-th pointer *)
(* this arena ever issued.  `live` maps the currently valid handles to the  *)
(* entry they denote, a pair <<token, content>>: the token identifies the   *)
(* value that was moved in, the content counts the writes made to it.       *)
(* `dead` are the handles that were invalidated.                            *)
(*                                                                          *)
(* How the implementation realises this (slot numbers, a last-in-first-out  *)
(* free list, one generation counter stamped on every allocation) is        *)
(* described by `raw`, `fr`, `gen` next to it, so that TLC can check that   *)
(* the design delivers the handle-level guarantees.  The conformance checks *)
(* never compare slot numbers or the free list order with the code.         *)
(*                                                                          *)
(* Every operation is a record [o |-> name, a |-> sequence of integers].    *)
(* Step(s, op) is a record                                                  *)
(*     s : successor state              r : the result                      *)
(*     k : interval the capacity must lie in afterwards                     *)
(*     g : interval for the number of steps the generation counter makes    *)
(* The argument 0 stands for *every* invalid pointer; all of them must      *)
(* behave the same.                                                         *)
EXTENDS Util

CONSTANT Design   \* TRUE: maintain the design-level part (raw, fr)

NewArena ==
  [ live |-> EmptyFun,      \* handle -> <<token, content>>
    dead |-> {},            \* invalidated handles
    nh   |-> 0,             \* handles issued so far
    nt   |-> 0,             \* tokens created so far
    cap  |-> 0,             \* capacity
    gen  |-> 2,             \* generation counter
    raw  |-> EmptyFun,      \* handle -> <<slot, generation>>   (design)
    fr   |-> <<>>,          \* free slots, next to be used first (design)
    mi   |-> INF,           \* largest index
    mg   |-> INF ]          \* largest generation

Lives(s) == DOMAIN s.live
Count(s) == Cardinality(DOMAIN s.live)
Full(s)  == Count(s) = s.cap
IsLive(s, h) == h \in DOMAIN s.live
Slot(s, h) == s.raw[h][1]
Tok(s, h) == s.live[h][1]
Con(s, h) == s.live[h][2]

Res(s, r, k, g) == [s |-> s, r |-> r, k |-> k, g |-> g]
Same(s) == <<s.cap, s.cap>>
NoOp(s, r) == Res(s, r, Same(s), <<0, 0>>)

SlotsFrom(a, b) == [i \in 1..(IF b >= a THEN b - a + 1 ELSE 0) |-> a + i - 1]

Grow(s, n) == [s EXCEPT !.cap = @ + n,
                        !.fr = IF Design THEN SlotsFrom(s.cap + 1, s.cap + n) \o @ ELSE @]

DoubleIfFull(s) ==
  IF Full(s) THEN Grow(s, Min2(IF s.cap = 0 THEN 1 ELSE s.cap, s.mi - s.cap)) ELSE s

\* put an entry into a non-full arena
Alloc(s, e) ==
  [s EXCEPT !.live = Put(@, s.nh + 1, e),
            !.raw  = IF Design THEN Put(@, s.nh + 1, <<Head(s.fr), s.gen>>) ELSE @,
            !.nh   = @ + 1,
            !.fr   = IF Design THEN Tail(@) ELSE @]

\* a new token in a non-full arena
AllocNew(s) == [Alloc(s, <<s.nt + 1, 0>>) EXCEPT !.nt = @ + 1]

IncGen(s, n) == [s EXCEPT !.gen = @ + n]

\* the handles in S die, their slots become free (the last one of q first)
RECURSIVE PushFree(_, _)
PushFree(fr, q) == IF q = <<>> THEN fr ELSE PushFree(<<Head(q)>> \o fr, Tail(q))
Kill(s, S) ==
  [s EXCEPT !.live = Drop(@, S),
            !.dead = @ \cup S,
            !.fr   = IF Design THEN PushFree(@, SeqOf({Slot(s, h) : h \in S})) ELSE @]

KillAllFresh(s) ==   \* everything dies and the free list is rebuilt
  [s EXCEPT !.live = EmptyFun, !.dead = @ \cup Lives(s),
            !.fr = IF Design THEN SlotsFrom(1, s.cap) ELSE @]

\* handle h is replaced by a new handle to the same slot holding entry e
Reissue(s, h, e) ==
  [s EXCEPT !.live = Put(Drop(@, {h}), s.nh + 1, e),
            !.dead = @ \cup {h},
            !.raw  = IF Design THEN Put(@, s.nh + 1, <<Slot(s, h), s.gen + 1>>) ELSE @,
            !.nh   = @ + 1,
            !.gen  = @ + 1]

Write(s, h, c) == [s EXCEPT !.live[h] = <<@[1], @[2] + c>>]

(* Moving every entry to a fresh handle.  New handles are numbered in the   *)
(* order of the old ones; the i-th handle of `sord` goes to slot i.         *)
Rename(s, sord) ==
  LET ord == SeqOf(Lives(s))
      n == Len(ord)
      new == {s.nh + i : i \in 1..n}
  IN [s EXCEPT !.live = [x \in new |-> s.live[ord[x - s.nh]]],
               !.dead = @ \cup Lives(s),
               !.raw  = IF Design
                        THEN [x \in new |-> <<PosIn(sord, ord[x - s.nh]), s.gen + 1>>] @@ @
                        ELSE @,
               !.nh   = @ + n,
               !.gen  = @ + 1,
               !.cap  = n,
               !.fr   = <<>>]
RenamePairs(s) ==
  LET ord == SeqOf(Lives(s)) IN Flatten([i \in 1..Len(ord) |-> <<ord[i], s.nh + i>>])

BySlot(s) ==   \* live handles in slot order
  IF ~Design THEN <<>> ELSE
  LET at == [x \in {Slot(s, h) : h \in Lives(s)} |-> CHOOSE h \in Lives(s) : Slot(s, h) = x]
      q == SeqOf(DOMAIN at)
  IN [i \in 1..Len(q) |-> at[q[i]]]

-----------------------------------------------------------------------------
(* Operations.  Variants (v) are different entry points with one meaning.   *)

Insert(s, v) ==     \* v: 0 insert  1 insert_with  2 try_insert  3 try_insert_with
  IF Full(s) /\ v >= 2 THEN NoOp(s, <<0>>)
  ELSE LET t == AllocNew(DoubleIfFull(s))
       IN Res(t, <<t.nh, t.nt>>, IF Full(s) THEN <<s.cap + 1, INF>> ELSE Same(s), <<0, 0>>)

\* the constructor of an insertion panics (v: 1 insert_with  3 try_insert_with)
InsertPanic(s, v) ==
  IF Full(s) /\ v = 3 THEN NoOp(s, <<0>>)
  ELSE Res(DoubleIfFull(s), <<-1>>, IF Full(s) THEN <<s.cap, INF>> ELSE Same(s), <<0, 0>>)

Remove(s, h) ==
  IF ~IsLive(s, h) THEN NoOp(s, <<0>>)
  ELSE Res(IncGen(Kill(s, {h}), 1), <<1, Tok(s, h), Con(s, h)>>, Same(s), <<1, 1>>)

Invalidate(s, h) ==
  IF ~IsLive(s, h) THEN NoOp(s, <<0>>)
  ELSE Res(Reissue(s, h, s.live[h]), <<s.nh + 1>>, Same(s), <<1, 1>>)

ReplaceKeep(s, h) ==
  IF ~IsLive(s, h) THEN NoOp(s, <<0>>)
  ELSE Res([s EXCEPT !.live[h] = <<s.nt + 1, 0>>, !.nt = @ + 1],
           <<1, s.nt + 1, Tok(s, h), Con(s, h)>>, Same(s), <<0, 0>>)

ReplaceUpdate(s, h) ==
  IF ~IsLive(s, h) THEN NoOp(s, <<0>>)
  ELSE Res([Reissue(s, h, <<s.nt + 1, 0>>) EXCEPT !.nt = @ + 1],
           <<s.nh + 1, s.nt + 1, Tok(s, h), Con(s, h)>>, Same(s), <<1, 1>>)

Set(s, h) ==        \* write through get_mut, IndexMut, ...
  IF ~IsLive(s, h) THEN NoOp(s, <<0>>) ELSE NoOp(Write(s, h, 1), <<1>>)

SetAll(s) ==        \* write through a mutable iterator
  NoOp([s EXCEPT !.live = [h \in DOMAIN @ |-> <<@[h][1], @[h][2] + 1>>]], <<Count(s)>>)

Swap(s, h1, h2) ==
  IF ~IsLive(s, h1) \/ ~IsLive(s, h2) THEN NoOp(s, <<0>>)
  ELSE NoOp([s EXCEPT !.live[h1] = s.live[h2], !.live[h2] = s.live[h1]], <<1>>)

Get2(s, h1, h2) ==  \* both references are written through
  IF ~IsLive(s, h1) \/ ~IsLive(s, h2) \/ h1 = h2 THEN NoOp(s, <<0>>)
  ELSE NoOp(Write(Write(s, h1, 1), h2, 2),
            <<1, Tok(s, h1), Con(s, h1), Tok(s, h2), Con(s, h2)>>)

Clear(s) == Res(IncGen(KillAllFresh(s), 1), <<>>, Same(s), <<1, 1>>)

ClearShrink(s) ==
  Res([IncGen(KillAllFresh(s), 1) EXCEPT !.cap = 0, !.fr = <<>>], <<>>, <<0, 0>>, <<1, 1>>)

Compress(s, v) ==   \* v: 0 plain  1 with callback  2 recaster
  Res(Rename(s, BySlot(s)), RenamePairs(s), <<Count(s), Count(s)>>, <<1, 1>>)

\* the predicate selects exactly the handles in S; it writes the ones it keeps
RemoveBy(s, S) ==
  LET t == IncGen(Kill(s, S), 1)
  IN Res([t EXCEPT !.live = [h \in DOMAIN @ |-> <<@[h][1], @[h][2] + 1>>]],
         <<Cardinality(S)>>, Same(s), IF S = {} THEN <<0, 1>> ELSE <<1, 1>>)

\* the predicate selects the handles in S, which come first, and then panics
RemoveByPanic(s, S) ==
  Res(IncGen(Kill(s, S), 1), <<-1>>, Same(s), IF S = {} THEN <<0, 2>> ELSE <<1, 2>>)

Reserve(s, n) ==
  Res(Grow(s, n), <<>>, <<Max2(s.cap, Count(s) + n), INF>>, <<0, 0>>)

\* n steps of a draining iterator, which is then dropped
Drain(s, n) ==
  LET extra == IF n < Count(s) THEN 1 ELSE 0
      t == KillAllFresh(s)
  IN Res(IncGen(t, 1 + extra), <<Min2(n, Count(s))>>, Same(s),
         IF Count(s) = 0 THEN <<0, 2>> ELSE <<1, 2>>)

\* n steps of a consuming iterator (v: 0 into_iter  1 capacity_drain), dropped;
\* the history goes on with a new arena
Consumed(s, new, n, v) ==
  LET t == [new EXCEPT !.nt = s.nt, !.mi = s.mi, !.mg = s.mg]
  IN IF v = 2 THEN Res(Grow(t, n), <<>>, <<n, INF>>, <<-INF, INF>>)
     ELSE Res(t, <<Min2(n, Count(s))>>, <<0, 0>>, <<-INF, INF>>)
Consume(s, n, v) == Consumed(s, NewArena, n, v)

\* s becomes a copy of another arena x with the same pointer validity
CopyFrom(s, x) ==
  LET c == Max2(s.cap, x.cap) IN
  [x EXCEPT !.cap = c, !.fr = IF Design THEN @ \o SlotsFrom(x.cap + 1, c) ELSE @]

Step(s, op) ==
  LET a == op.a IN
  CASE op.o = "ins"   -> Insert(s, a[1])
    [] op.o = "insx"  -> InsertPanic(s, a[1])
    [] op.o = "rmbx"  -> RemoveByPanic(s, RangeOf(a))
    [] op.o = "rem"   -> Remove(s, a[1])
    [] op.o = "inv"   -> Invalidate(s, a[1])
    [] op.o = "rk"    -> ReplaceKeep(s, a[1])
    [] op.o = "ru"    -> ReplaceUpdate(s, a[1])
    [] op.o = "set"   -> Set(s, a[1])
    [] op.o = "seta"  -> SetAll(s)
    [] op.o = "swap"  -> Swap(s, a[1], a[2])
    [] op.o = "get2"  -> Get2(s, a[1], a[2])
    [] op.o = "clear" -> Clear(s)
    [] op.o = "cshr"  -> ClearShrink(s)
    [] op.o = "comp"  -> Compress(s, a[1])
    [] op.o = "rmby"  -> RemoveBy(s, RangeOf(a))
    [] op.o = "res"   -> Reserve(s, a[1])
    [] op.o = "drain" -> Drain(s, a[1])
    [] op.o = "into"  -> Consume(s, a[1], a[2])

Op(o, a) == [o |-> o, a |-> a]

(* Limits.  An insertion into an arena with the maximal number of entries,  *)
(* a reservation beyond the index limit and an invalidation at the maximal  *)
(* generation must panic; nothing else may.  For reservations that exceed   *)
(* the limit only because of unused capacity both outcomes are allowed, and *)
(* so are both for a predicate removal that selects nothing and for draining*)
(* an empty arena at the maximal generation.                                *)
MustPanic(s, op) ==
  \/ op.o = "ins" /\ op.a[1] < 2 /\ Count(s) = s.mi
  \/ op.o = "res" /\ Count(s) + op.a[1] > s.mi
  \/ LET g == Step(s, op).g IN g[1] > 0 /\ s.gen + g[1] > s.mg
MayPanic(s, op) ==
  \/ op.o = "res" /\ s.cap + op.a[1] > s.mi
  \/ LET g == Step(s, op).g IN g[2] < INF /\ s.gen + g[2] > s.mg

\* every operation explored from s; mc bounds the capacity
Ops(s, mc) ==
  LET L == Lives(s)
      H == L \cup {0}
      capOk == ~Full(s) \/ Max2(1, 2 * s.cap) <= mc
  IN   {Op("ins", <<v>>) : v \in IF capOk THEN 0..3 ELSE 2..3}
  \cup {Op("insx", <<v>>) : v \in IF capOk THEN {1, 3} ELSE {3}}
  \cup {Op("rmbx", SubSeq(BySlot(s), 1, n)) : n \in 0..(Count(s) - 1)}
  \cup {Op(o, <<h>>) : o \in {"rem", "inv", "rk", "ru"}, h \in H}
  \cup {Op("set", <<h, v>>) : h \in H, v \in 0..2}
  \cup {Op("seta", <<v>>) : v \in 0..2}
  \cup {Op(o, <<h1, h2>>) : o \in {"swap", "get2"}, h1 \in H, h2 \in H}
  \cup {Op("clear", <<>>), Op("cshr", <<>>)}
  \cup {Op("comp", <<v>>) : v \in 0..2}
  \cup {Op("rmby", SeqOf(S)) : S \in SUBSET L}
  \cup {Op("res", <<n>>) : n \in {n \in 0..2 : s.cap + n <= mc}}
  \cup {Op("drain", <<n>>) : n \in 0..(Count(s) + 1)}
  \cup {Op("into", <<n, v>>) : n \in 0..(Count(s) + 1), v \in 0..1}
  \cup {Op("into", <<n, 2>>) : n \in 0..Min2(mc, 5)}

\* one entry point per effect
SmallOps(s, mc) ==
  {op \in Ops(s, mc) :
     /\ op.o \in {"ins", "rem", "inv", "ru", "set", "swap", "clear", "cshr", "comp", "rmby", "res", "drain"}
     /\ op.o \in {"ins", "seta", "comp"} => op.a[1] = 0
     /\ op.o = "set" => op.a[2] = 0
     /\ op.o = "rmby" => Len(op.a) = Count(s)
     /\ op.o = "swap" => op.a[1] < op.a[2]
     /\ op.o = "drain" => op.a[1] = 1}

-----------------------------------------------------------------------------
(* Design-level guarantees, checked by TLC on the model.                    *)

Accepts(s, h) ==   \* the implementation's validity test
  /\ Slot(s, h) <= s.cap
  /\ \E x \in Lives(s) : s.raw[x] = s.raw[h]

DesignInv(s) ==
  /\ Count(s) + Len(s.fr) = s.cap                              \* accounting
  /\ {Slot(s, h) : h \in Lives(s)} \cup RangeOf(s.fr) = 1..s.cap
  /\ Cardinality(RangeOf(s.fr)) = Len(s.fr)
  /\ \A h, x \in Lives(s) : h # x => Slot(s, h) # Slot(s, x) /\ Tok(s, h) # Tok(s, x)
  /\ Lives(s) \cap s.dead = {} /\ Lives(s) \cup s.dead = 1..s.nh
  /\ Injective(s.raw)                                          \* pointers never reissued
  /\ \A h \in 1..s.nh : Accepts(s, h) <=> h \in Lives(s)       \* stale never accepted
  /\ \A h \in 1..s.nh : s.raw[h][2] <= s.gen

\* the handles an operation may invalidate or write
Targets(s, op) ==
  CASE op.o \in {"rem", "inv", "rk", "ru", "set"} -> {op.a[1]}
    [] op.o \in {"swap", "get2"} -> {op.a[1], op.a[2]}
    [] op.o \in {"ins", "insx", "res"} -> {}
    [] OTHER -> Lives(s)

StepInv(s, op, t) ==   \* t = Step(s, op).s
  /\ op.o # "into" =>
       /\ s.dead \subseteq t.dead                               \* never revived
       /\ \A h \in Lives(s) \ Targets(s, op) : h \in Lives(t) /\ t.live[h] = s.live[h]
  /\ op.o \in {"rem", "inv", "rk", "ru", "set", "swap", "get2"}
       /\ (\E i \in DOMAIN op.a : i <= 2 /\ op.a[i] = 0 /\ ~(op.o = "set" /\ i = 2)) => t = s

\* projection that the conformance checks compare
LiveSeq(s) == LET q == SeqOf(Lives(s)) IN [i \in 1..Len(q) |-> <<q[i], Tok(s, q[i]), Con(s, q[i])>>]
Proj(s) == [live |-> LiveSeq(s), nh |-> s.nh, cap |-> s.cap, gen |-> s.gen]
View(s) == <<s.cap, s.fr>>
=============================================================================

----------------------------- MODULE ChainCore -----------------------------
(* Chain arenas: an arena whose entries are linked.  `nxt` maps a handle to *)
(* the handle of its successor, where it has one.  It must stay injective,  *)
(* so that the links form disjoint sequences and cycles.  Handle arguments: *)
(* 0 is every invalid pointer, -1 is "none".                                *)
EXTENDS ArenaCore

NewChain == [x \in {"nxt"} |-> EmptyFun] @@ NewArena

HasNext(s, h) == h \in DOMAIN s.nxt
HasPrev(s, h) == \E x \in DOMAIN s.nxt : s.nxt[x] = h
NextOf(s, h) == s.nxt[h]
PrevOf(s, h) == CHOOSE x \in DOMAIN s.nxt : s.nxt[x] = h
NextOr0(s, h) == IF HasNext(s, h) THEN NextOf(s, h) ELSE 0
PrevOr0(s, h) == IF HasPrev(s, h) THEN PrevOf(s, h) ELSE 0

\* the set of links connected to h
RECURSIVE Closure(_, _)
Closure(s, S) ==
  LET T == S \cup {s.nxt[x] : x \in S \cap DOMAIN s.nxt}
             \cup {x \in DOMAIN s.nxt : s.nxt[x] \in S}
  IN IF T = S THEN S ELSE Closure(s, T)
ChainOf(s, h) == Closure(s, {h})

\* the links from h on, in order, until the end or until the cycle closes
RECURSIVE Fwd(_, _, _)
Fwd(s, h, stop) ==
  IF ~HasNext(s, h) \/ NextOf(s, h) = stop THEN <<h>>
  ELSE <<h>> \o Fwd(s, NextOf(s, h), stop)
RECURSIVE Bwd(_, _)
Bwd(s, h) == IF ~HasPrev(s, h) THEN <<>> ELSE <<PrevOf(s, h)>> \o Bwd(s, PrevOf(s, h))
\* order of a walk over the chain: from h to the end, then backwards before h
Walk(s, h) ==
  LET f == Fwd(s, h, h) IN
  IF HasNext(s, f[Len(f)]) THEN f ELSE f \o Bwd(s, h)

\* h leaves its chain, its neighbours become neighbours
Unlink(s, h) ==
  LET n == Drop(s.nxt, {h}) IN
  [s EXCEPT !.nxt =
     IF ~HasPrev(s, h) \/ PrevOf(s, h) = h THEN n
     ELSE IF HasNext(s, h) THEN Put(n, PrevOf(s, h), NextOf(s, h))
     ELSE Drop(n, {PrevOf(s, h)})]

\* the links keep their places under new names; f maps old to new handles
RenameLinks(nxt, f) ==
  LET g(h) == IF h \in DOMAIN f THEN f[h] ELSE h
  IN [y \in {g(x) : x \in DOMAIN nxt} |-> g(nxt[CHOOSE x \in DOMAIN nxt : g(x) = y])]

\* a new link between a and b (0: none)
LinkIn(s, a, b) ==
  LET n0 == IF a = 0 THEN s.nxt ELSE Put(s.nxt, a, s.nh)
  IN [s EXCEPT !.nxt = IF b = 0 THEN n0 ELSE Put(n0, s.nh, b)]

CAlloc(s, a, b) ==
  LET t == LinkIn(AllocNew(DoubleIfFull(s)), a, b)
  IN Res(t, <<t.nh, t.nt>>, IF Full(s) THEN <<s.cap + 1, INF>> ELSE Same(s), <<0, 0>>)

-----------------------------------------------------------------------------
InsertOk(s, p, n) ==
  /\ p = -1 \/ IsLive(s, p)
  /\ n = -1 \/ IsLive(s, n)
  /\ (p # -1 /\ n # -1) => (HasNext(s, p) /\ NextOf(s, p) = n)
CInsert(s, p, n) ==
  IF ~InsertOk(s, p, n) THEN NoOp(s, <<0>>)
  ELSE CAlloc(s, IF p # -1 THEN p ELSE IF n # -1 THEN PrevOr0(s, n) ELSE 0,
                 IF n # -1 THEN n ELSE IF p # -1 THEN NextOr0(s, p) ELSE 0)

\* v: 0 insert_new  1 insert_new_with  2 insert_new_cyclic  3 insert_new_cyclic_with
CNew(s, v) == IF v < 2 THEN CAlloc(s, 0, 0) ELSE CAlloc(s, 0, s.nh + 1)

CStart(s, h) == IF ~IsLive(s, h) \/ HasPrev(s, h) THEN NoOp(s, <<0>>) ELSE CAlloc(s, 0, h)
CEnd(s, h)   == IF ~IsLive(s, h) \/ HasNext(s, h) THEN NoOp(s, <<0>>) ELSE CAlloc(s, h, 0)

\* the constructor of an insertion panics; only the capacity may have grown
CPanic(s, p, n) ==
  IF ~InsertOk(s, p, n) THEN NoOp(s, <<0>>)
  ELSE Res(DoubleIfFull(s), <<-1>>, IF Full(s) THEN <<s.cap, INF>> ELSE Same(s), <<0, 0>>)

CRemove(s, h) ==
  IF ~IsLive(s, h) THEN NoOp(s, <<0>>)
  ELSE Res(IncGen(Kill(Unlink(s, h), {h}), 1),
           <<1, Tok(s, h), Con(s, h), PrevOr0(s, h), NextOr0(s, h)>>, Same(s), <<1, 1>>)

CRemoveChain(s, h) ==
  IF ~IsLive(s, h) THEN NoOp(s, <<0>>)
  ELSE LET C == ChainOf(s, h) IN
       Res(IncGen([Kill(s, C) EXCEPT !.nxt = Drop(@, C)], 1), <<Cardinality(C)>>, Same(s), <<1, 1>>)

Relink(s, t, h) == [t EXCEPT !.nxt = RenameLinks(s.nxt, (h :> t.nh))]
CInvalidate(s, h) ==
  LET t == Invalidate(s, h) IN IF ~IsLive(s, h) THEN t ELSE [t EXCEPT !.s = Relink(s, @, h)]
CReplaceUpdate(s, h) ==
  LET t == ReplaceUpdate(s, h) IN IF ~IsLive(s, h) THEN t ELSE [t EXCEPT !.s = Relink(s, @, h)]

Connect(s, a, b) ==
  IF ~IsLive(s, a) \/ ~IsLive(s, b) \/ HasNext(s, a) \/ HasPrev(s, b) THEN NoOp(s, <<0>>)
  ELSE NoOp([s EXCEPT !.nxt = Put(@, a, b)], <<1>>)
BreakPrev(s, h) ==
  IF ~IsLive(s, h) \/ ~HasPrev(s, h) THEN NoOp(s, <<0>>)
  ELSE NoOp([s EXCEPT !.nxt = Drop(@, {PrevOf(s, h)})], <<1>>)
BreakNext(s, h) ==
  IF ~IsLive(s, h) \/ ~HasNext(s, h) THEN NoOp(s, <<0>>)
  ELSE NoOp([s EXCEPT !.nxt = Drop(@, {h})], <<1>>)
Exchange(s, a, b) ==
  IF ~IsLive(s, a) \/ ~IsLive(s, b) \/ ~HasNext(s, a) \/ ~HasNext(s, b) THEN NoOp(s, <<0>>)
  ELSE NoOp([s EXCEPT !.nxt[a] = s.nxt[b], !.nxt[b] = s.nxt[a]], <<1>>)

NoLinks(t) == [t EXCEPT !.s.nxt = EmptyFun]
CCompress(s, v) ==
  LET t == Compress(s, v)
      ord == SeqOf(Lives(s))
      f == [h \in Lives(s) |-> s.nh + PosIn(ord, h)]
  IN [t EXCEPT !.s.nxt = RenameLinks(s.nxt, f)]
CConsume(s, n, v) == Consumed(s, NewChain, n, v)

CStep(s, op) ==
  LET a == op.a IN
  CASE op.o = "cins"  -> CInsert(s, a[1], a[2])
    [] op.o = "cinx"  -> CPanic(s, a[1], a[2])
    [] op.o = "cnew"  -> CNew(s, a[1])
    [] op.o = "cnex"  -> CPanic(s, -1, -1)
    [] op.o = "cst"   -> CStart(s, a[1])
    [] op.o = "cen"   -> CEnd(s, a[1])
    [] op.o = "rem"   -> CRemove(s, a[1])
    [] op.o = "remc"  -> CRemoveChain(s, a[1])
    [] op.o = "inv"   -> CInvalidate(s, a[1])
    [] op.o = "ru"    -> CReplaceUpdate(s, a[1])
    [] op.o = "conn"  -> Connect(s, a[1], a[2])
    [] op.o = "brkp"  -> BreakPrev(s, a[1])
    [] op.o = "brkn"  -> BreakNext(s, a[1])
    [] op.o = "exch"  -> Exchange(s, a[1], a[2])
    [] op.o = "clear" -> NoLinks(Clear(s))
    [] op.o = "cshr"  -> NoLinks(ClearShrink(s))
    [] op.o = "drain" -> NoLinks(Drain(s, a[1]))
    [] op.o = "comp"  -> CCompress(s, a[1])
    [] op.o = "into"  -> CConsume(s, a[1], a[2])
    [] OTHER -> Step(s, op)       \* rk set seta swap get2 res

CMustPanic(s, op) ==
  \/ op.o \in {"cins", "cnew", "cst", "cen"} /\ CStep(s, op).r # <<0>> /\ Count(s) = s.mi
  \/ op.o = "res" /\ Count(s) + op.a[1] > s.mi
  \/ LET g == CStep(s, op).g IN g[1] > 0 /\ s.gen + g[1] > s.mg
CMayPanic(s, op) ==
  \/ op.o = "res" /\ s.cap + op.a[1] > s.mi
  \/ LET g == CStep(s, op).g IN g[2] < INF /\ s.gen + g[2] > s.mg

COps(s, mc) ==
  LET L == Lives(s)
      H == L \cup {0}
      M == H \cup {-1}
      capOk == ~Full(s) \/ Max2(1, 2 * s.cap) <= mc
      grow == {Op("cins", <<p, n, v>>) : p \in M, n \in M, v \in 0..1}
         \cup {Op("cinx", <<p, n>>) : p \in M, n \in M}
         \cup {Op("cnew", <<v>>) : v \in 0..3}
         \cup {Op("cnex", <<v>>) : v \in 0..1}
         \cup {Op(o, <<h>>) : o \in {"cst", "cen"}, h \in H}
  IN   {op \in grow : capOk \/ CStep(s, op).r = <<0>>}
  \cup {Op(o, <<h>>) : o \in {"rem", "remc", "inv", "rk", "ru", "brkp", "brkn"}, h \in H}
  \cup {Op("set", <<h, v>>) : h \in H, v \in 0..3}
  \cup {Op("seta", <<v>>) : v \in 0..2}
  \cup {Op(o, <<h1, h2>>) : o \in {"swap", "conn", "exch"}, h1 \in H, h2 \in H}
  \cup {Op("get2", <<h1, h2, v>>) : h1 \in H, h2 \in H, v \in 0..1}
  \cup {Op("clear", <<>>), Op("cshr", <<>>)}
  \cup {Op("comp", <<v>>) : v \in 0..2}
  \cup {Op("res", <<n>>) : n \in {n \in 0..1 : s.cap + n <= mc}}
  \cup {Op("drain", <<n>>) : n \in 0..(Count(s) + 1)}
  \cup {Op("into", <<n, 1>>) : n \in 0..(Count(s) + 1)}
  \cup {Op("into", <<n, 2>>) : n \in {0, 1, Min2(mc, 3)}}

CSmallOps(s, mc) ==
  {op \in COps(s, mc) :
     /\ op.o \in {"cins", "cnew", "rem", "remc", "inv", "ru", "set", "conn", "brkn", "exch",
                  "clear", "cshr", "comp", "res", "drain"}
     /\ op.o = "cins" => op.a[1] # 0 /\ op.a[2] = -1 /\ op.a[3] = 0
     /\ op.o = "cnew" => op.a[1] \in {0, 2}
     /\ op.o = "comp" => op.a[1] = 0
     /\ op.o = "set" => op.a[2] = 0
     /\ op.o = "drain" => op.a[1] = 1}

-----------------------------------------------------------------------------
CInv(s) ==
  /\ DesignInv(s)
  /\ DOMAIN s.nxt \subseteq Lives(s)
  /\ FRange(s.nxt) \subseteq Lives(s)
  /\ Injective(s.nxt)
  \* each chain is a sequence with one start and one end, or a cycle
  /\ \A h \in Lives(s) :
       LET C == ChainOf(s, h)
           ends == {x \in C : ~HasNext(s, x)}
           starts == {x \in C : ~HasPrev(s, x)}
       IN /\ Cardinality(ends) = Cardinality(starts) /\ Cardinality(ends) <= 1
          /\ RangeOf(Walk(s, h)) = C /\ Len(Walk(s, h)) = Cardinality(C)

\* chains that contain no target of the operation are not affected
Touched(s, op) ==
  LET T == {op.a[i] : i \in {i \in DOMAIN op.a : i <= 2}} \cap Lives(s)
  IN UNION {ChainOf(s, h) : h \in T}
CStepInv(s, op, t) ==
  /\ op.o \in {"cins", "cinx", "cnex", "cst", "cen", "rem", "remc", "inv", "ru", "conn", "brkp", "brkn",
               "exch", "set", "rk", "swap", "get2"} =>
       \A h \in Lives(s) \ Touched(s, op) :
          /\ h \in Lives(t) /\ t.live[h] = s.live[h]
          /\ HasNext(s, h) = HasNext(t, h) /\ (HasNext(s, h) => NextOf(s, h) = NextOf(t, h))
          /\ HasPrev(s, h) = HasPrev(t, h) /\ (HasPrev(s, h) => PrevOf(s, h) = PrevOf(t, h))
  /\ op.o # "into" => s.dead \subseteq t.dead
  /\ op.o \in {"rem", "remc", "inv", "rk", "ru", "set", "swap", "get2", "conn", "brkp", "brkn", "exch",
               "cins", "cst", "cen"} =>
       (CStep(s, op).r = <<0>> => t = s)
  \* exchanging successors within one cycle splits it, of two cycles merges them
  /\ (op.o = "exch" /\ CStep(s, op).r = <<1>> /\ op.a[1] # op.a[2]) =>
       LET a == op.a[1]  b == op.a[2]
           cyc(h) == \A x \in ChainOf(s, h) : HasNext(s, x)
       IN (cyc(a) /\ cyc(b)) => (b \in ChainOf(s, a) <=> b \notin ChainOf(t, a))

NxtSeq(s) == LET q == SeqOf(DOMAIN s.nxt) IN [i \in 1..Len(q) |-> <<q[i], s.nxt[q[i]]>>]
WalkSeq(s) == LET q == SeqOf(Lives(s)) IN [i \in 1..Len(q) |-> Walk(s, q[i])]
CProj(s) == [live |-> LiveSeq(s), nh |-> s.nh, cap |-> s.cap, gen |-> s.gen,
             nxt |-> NxtSeq(s), walk |-> WalkSeq(s)]
CView(s) == <<s.cap, {Slot(s, h) : h \in Lives(s)}, {<<Slot(s, h), Slot(s, s.nxt[h])>> : h \in DOMAIN s.nxt}>>
=============================================================================

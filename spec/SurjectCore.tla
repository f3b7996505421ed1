---------------------------- MODULE SurjectCore ----------------------------
(* Surjection arenas: keys are entries of an arena (`live` maps a handle to *)
(* its key), every key belongs to one set of keys, every set has one value. *)
(* `set` maps a handle to the set it is in, `val` maps a set to its value   *)
(* <<token, content>>.  The order of keys inside a set is left open.        *)
(* Values have a capacity of their own (vcap, k2), and in the design slots  *)
(* of their own (vsl, vfr).                                                 *)
EXTENDS ArenaCore

NewSurject ==
  [x \in {"set", "val", "vsl"} |-> EmptyFun]
  @@ [x \in {"nv", "vcap"} |-> 0]
  @@ [x \in {"vfr"} |-> <<>>]
  @@ NewArena

Sets(s) == DOMAIN s.val
VCount(s) == Cardinality(DOMAIN s.val)
VFull(s) == VCount(s) = s.vcap
KeysOf(s, v) == {h \in Lives(s) : s.set[h] = v}
VTok(s, h) == s.val[s.set[h]][1]
VCon(s, h) == s.val[s.set[h]][2]

VSame(s) == <<s.vcap, s.vcap>>
SRes(s, r, k, k2, g) == [s |-> s, r |-> r, k |-> k, k2 |-> k2, g |-> g]
SNoOp(s, r) == SRes(s, r, Same(s), VSame(s), <<0, 0>>)
WithV(s, t) == SRes(t.s, t.r, t.k, VSame(s), t.g)

VGrow(s, n) == [s EXCEPT !.vcap = @ + n,
                         !.vfr = IF Design THEN SlotsFrom(s.vcap + 1, s.vcap + n) \o @ ELSE @]
VDoubleIfFull(s) ==
  IF VFull(s) THEN VGrow(s, Min2(IF s.vcap = 0 THEN 1 ELSE s.vcap, s.mi - s.vcap)) ELSE s

\* a new set with a new value
VAlloc(s) ==
  [s EXCEPT !.nv = @ + 1,
            !.nt = @ + 1,
            !.val = Put(@, s.nv + 1, <<s.nt + 1, 0>>),
            !.vsl = IF Design THEN Put(@, s.nv + 1, Head(s.vfr)) ELSE @,
            !.vfr = IF Design THEN Tail(@) ELSE @]
VKill(s, v) ==
  [s EXCEPT !.val = Drop(@, {v}),
            !.vsl = IF Design THEN Drop(@, {v}) ELSE @,
            !.vfr = IF Design THEN <<s.vsl[v]>> \o @ ELSE @]

KGrown(s) == IF Full(s) THEN <<s.cap + 1, INF>> ELSE Same(s)
KMayGrow(s) == IF Full(s) THEN <<s.cap, INF>> ELSE Same(s)
VGrown(s) == IF VFull(s) THEN <<s.vcap + 1, INF>> ELSE VSame(s)
VMayGrow(s) == IF VFull(s) THEN <<s.vcap, INF>> ELSE VSame(s)

-----------------------------------------------------------------------------
\* v: 0 insert  1 insert_with; the key gets the first new token, the value the second
SInsert(s, v) ==
  LET k == AllocNew(DoubleIfFull(s))
      t == VAlloc(VDoubleIfFull(k))
  IN SRes([t EXCEPT !.set = Put(@, t.nh, t.nv)], <<t.nh, k.nt, t.nt>>, KGrown(s), VGrown(s), <<0, 0>>)

SInsertPanic(s) ==
  SRes(VDoubleIfFull(DoubleIfFull(s)), <<-1>>, KMayGrow(s), VMayGrow(s), <<0, 0>>)

\* v: 0 insert_key  1 insert_key_with
SInsertKey(s, h, v) ==
  IF ~IsLive(s, h) THEN SNoOp(s, <<0>>)
  ELSE LET t == AllocNew(DoubleIfFull(s))
       IN SRes([t EXCEPT !.set = Put(@, t.nh, s.set[h])], <<t.nh, t.nt>>, KGrown(s), VSame(s), <<0, 0>>)

SInsertKeyPanic(s, h) ==
  IF ~IsLive(s, h) THEN SNoOp(s, <<0>>)
  ELSE SRes(DoubleIfFull(s), <<-1>>, KMayGrow(s), VSame(s), <<0, 0>>)

\* the set with fewer keys, or the second one, gives up its value
Union(s, a, b) ==
  IF ~IsLive(s, a) \/ ~IsLive(s, b) \/ s.set[a] = s.set[b] THEN SNoOp(s, <<0>>)
  ELSE LET la == Cardinality(KeysOf(s, s.set[a]))
           lb == Cardinality(KeysOf(s, s.set[b]))
           keep == IF la < lb THEN b ELSE a
           gone == IF la < lb THEN a ELSE b
           v == s.set[gone]
           t == VKill(s, v)
       IN SNoOp([t EXCEPT !.set = [h \in DOMAIN @ |-> IF @[h] = v THEN s.set[keep] ELSE @[h]]],
                <<1, s.val[v][1], s.val[v][2], keep>>)

SRemoveKey(s, h) ==
  IF ~IsLive(s, h) THEN SNoOp(s, <<0>>)
  ELSE LET v == s.set[h]
           last == KeysOf(s, v) = {h}
           t == [IncGen(Kill(s, {h}), 1) EXCEPT !.set = Drop(@, {h})]
       IN SRes(IF last THEN VKill(t, v) ELSE t,
               IF last THEN <<1, Tok(s, h), Con(s, h), 1, VTok(s, h), VCon(s, h)>>
                       ELSE <<1, Tok(s, h), Con(s, h), 0>>,
               Same(s), VSame(s), <<1, 1>>)

SRemove(s, h) ==
  IF ~IsLive(s, h) THEN SNoOp(s, <<0>>)
  ELSE LET S == KeysOf(s, s.set[h])
       IN SRes(VKill([IncGen(Kill(s, S), 1) EXCEPT !.set = Drop(@, S)], s.set[h]),
               <<1, VTok(s, h), VCon(s, h)>>, Same(s), VSame(s), <<1, 1>>)

SInvalidate(s, h) ==
  IF ~IsLive(s, h) THEN SNoOp(s, <<0>>)
  ELSE LET t == Invalidate(s, h)
       IN WithV(s, [t EXCEPT !.s.set = Put(Drop(@, {h}), t.s.nh, s.set[h])])

VWrite(s, v, c) == [s EXCEPT !.val[v] = <<@[1], @[2] + c>>]

SetKey(s, h) == WithV(s, Set(s, h))
SetVal(s, h) == IF ~IsLive(s, h) THEN SNoOp(s, <<0>>) ELSE SNoOp(VWrite(s, s.set[h], 1), <<1>>)
SetBoth(s, h) ==
  IF ~IsLive(s, h) THEN SNoOp(s, <<0>>) ELSE SNoOp(VWrite(Write(s, h, 1), s.set[h], 1), <<1>>)

SSetAll(s, v) ==   \* v: 0 keys_mut  1 vals_mut
  IF v = 0 THEN WithV(s, SetAll(s))
  ELSE SNoOp([s EXCEPT !.val = [x \in DOMAIN @ |-> <<@[x][1], @[x][2] + 1>>]], <<VCount(s)>>)

SwapKeys(s, a, b) == WithV(s, Swap(s, a, b))
SwapVals(s, a, b) ==
  IF ~IsLive(s, a) \/ ~IsLive(s, b) THEN SNoOp(s, <<0>>)
  ELSE SNoOp([s EXCEPT !.val[s.set[a]] = s.val[s.set[b]], !.val[s.set[b]] = s.val[s.set[a]]], <<1>>)

Get2Key(s, a, b) == WithV(s, Get2(s, a, b))
Get2Val(s, a, b) ==
  IF ~IsLive(s, a) \/ ~IsLive(s, b) \/ s.set[a] = s.set[b] THEN SNoOp(s, <<0>>)
  ELSE SNoOp(VWrite(VWrite(s, s.set[a], 1), s.set[b], 2),
             <<1, VTok(s, a), VCon(s, a), VTok(s, b), VCon(s, b)>>)
Get2Both(s, a, b) ==
  IF ~IsLive(s, a) \/ ~IsLive(s, b) \/ s.set[a] = s.set[b] THEN SNoOp(s, <<0>>)
  ELSE SNoOp(VWrite(VWrite(Write(Write(s, a, 1), b, 2), s.set[a], 1), s.set[b], 2),
             <<1, Tok(s, a), Con(s, a), VTok(s, a), VCon(s, a), Tok(s, b), Con(s, b), VTok(s, b), VCon(s, b)>>)

NoVals(s) == [s EXCEPT !.set = EmptyFun, !.val = EmptyFun, !.vsl = EmptyFun,
                       !.vfr = IF Design THEN SlotsFrom(1, s.vcap) ELSE @]
SClear(s) == LET t == Clear(s) IN SRes(NoVals(t.s), t.r, t.k, VSame(s), t.g)
SClearShrink(s) ==
  LET t == ClearShrink(s)
  IN SRes([NoVals(t.s) EXCEPT !.vcap = 0, !.vfr = <<>>], t.r, t.k, <<0, 0>>, t.g)

SCompress(s, v) ==
  LET ord == SeqOf(Lives(s))
      new == {s.nh + i : i \in 1..Len(ord)}
      sets == SeqOf(Sets(s))
      \* keys of one set next to each other
      sord == Flatten([i \in 1..Len(sets) |-> SeqOf(KeysOf(s, sets[i]))])
      t == Rename(s, sord)
      n == VCount(s)
  IN SRes([t EXCEPT !.set = [x \in new |-> s.set[ord[x - s.nh]]],
                    !.vcap = n, !.vfr = <<>>,
                    !.vsl = IF Design THEN [x \in Sets(s) |-> PosIn(sets, x)] ELSE @],
          RenamePairs(s), <<Count(s), Count(s)>>, <<n, n>>, <<1, 1>>)

SReserve(s, nk, nv) ==
  SRes(VGrow(Grow(s, nk), nv), <<>>, <<Max2(s.cap, Count(s) + nk), INF>>,
       <<Max2(s.vcap, VCount(s) + nv), INF>>, <<0, 0>>)

\* a new arena with given capacities
SNewWith(s, nk, nv) ==
  SRes(VGrow(Grow([NewSurject EXCEPT !.nt = s.nt, !.mi = s.mi, !.mg = s.mg], nk), nv), <<>>,
       <<nk, INF>>, <<nv, INF>>, <<-INF, INF>>)

SCopyFrom(s, x) ==
  LET c == Max2(s.vcap, x.vcap) IN
  [CopyFrom(s, x) EXCEPT !.vcap = c, !.vfr = IF Design THEN @ \o SlotsFrom(x.vcap + 1, c) ELSE @]

SStep(s, op) ==
  LET a == op.a IN
  CASE op.o = "sins"  -> SInsert(s, a[1])
    [] op.o = "sinx"  -> SInsertPanic(s)
    [] op.o = "skey"  -> SInsertKey(s, a[1], a[2])
    [] op.o = "skex"  -> SInsertKeyPanic(s, a[1])
    [] op.o = "union" -> Union(s, a[1], a[2])
    [] op.o = "remk"  -> SRemoveKey(s, a[1])
    [] op.o = "rems"  -> SRemove(s, a[1])
    [] op.o = "inv"   -> SInvalidate(s, a[1])
    [] op.o = "set"   -> IF a[2] = 0 THEN SetKey(s, a[1])
                         ELSE IF a[2] = 1 THEN SetVal(s, a[1]) ELSE SetBoth(s, a[1])
    [] op.o = "seta"  -> SSetAll(s, a[1])
    [] op.o = "swapk" -> SwapKeys(s, a[1], a[2])
    [] op.o = "swapv" -> SwapVals(s, a[1], a[2])
    [] op.o = "g2k"   -> Get2Key(s, a[1], a[2])
    [] op.o = "g2v"   -> Get2Val(s, a[1], a[2])
    [] op.o = "g2kv"  -> Get2Both(s, a[1], a[2])
    [] op.o = "clear" -> SClear(s)
    [] op.o = "cshr"  -> SClearShrink(s)
    [] op.o = "comp"  -> SCompress(s, a[1])
    [] op.o = "res"   -> SReserve(s, a[1], a[2])
    [] op.o = "into"  -> SNewWith(s, a[1], a[2])

SMustPanic(s, op) ==
  \/ op.o \in {"sins", "skey"} /\ SStep(s, op).r # <<0>> /\ Count(s) = s.mi
  \/ op.o = "res" /\ (Count(s) + op.a[1] > s.mi \/ VCount(s) + op.a[2] > s.mi)
  \/ LET g == SStep(s, op).g IN g[1] > 0 /\ s.gen + g[1] > s.mg
SMayPanic(s, op) ==
  \/ op.o = "res" /\ (s.cap + op.a[1] > s.mi \/ s.vcap + op.a[2] > s.mi)
  \/ LET g == SStep(s, op).g IN g[2] < INF /\ s.gen + g[2] > s.mg

SOps(s, mc) ==
  LET L == Lives(s)
      H == L \cup {0}
      kOk == ~Full(s) \/ Max2(1, 2 * s.cap) <= mc
      vOk == ~VFull(s) \/ Max2(1, 2 * s.vcap) <= mc
  IN   (IF kOk /\ vOk THEN {Op("sins", <<0>>), Op("sins", <<1>>), Op("sinx", <<>>)} ELSE {})
  \cup {Op("skey", <<h, v>>) : h \in IF kOk THEN H ELSE {0}, v \in 0..1}
  \cup {Op("skex", <<h>>) : h \in IF kOk THEN H ELSE {0}}
  \cup {Op(o, <<h>>) : o \in {"remk", "rems", "inv"}, h \in H}
  \cup {Op("set", <<h, v>>) : h \in H, v \in 0..2}
  \cup {Op("seta", <<v>>) : v \in 0..1}
  \cup {Op(o, <<a, b>>) : o \in {"union", "swapk", "swapv", "g2k", "g2v", "g2kv"}, a \in H, b \in H}
  \cup {Op("clear", <<>>), Op("cshr", <<>>)}
  \cup {Op("comp", <<v>>) : v \in 0..2}
  \cup {Op("res", <<x, y>>) : x \in {x \in 0..1 : s.cap + x <= mc}, y \in {y \in 0..1 : s.vcap + y <= mc}}
  \cup {Op("into", a) : a \in {<<0, 0>>, <<1, 2>>, <<Min2(mc, 3), 1>>}}

SSmallOps(s, mc) ==
  {op \in SOps(s, mc) :
     /\ op.o \in {"sins", "skey", "union", "remk", "rems", "inv", "set", "swapk", "swapv", "clear", "cshr",
                  "comp", "res"}
     /\ op.o \in {"sins", "comp"} => op.a[1] = 0
     /\ op.o = "skey" => op.a[1] # 0 /\ op.a[2] = 0
     /\ op.o \in {"swapk", "swapv"} => op.a[1] < op.a[2] /\ op.a[1] # 0
     /\ op.o \in {"union", "remk", "rems", "inv"} => op.a[1] # 0
     /\ op.o = "set" => op.a[1] # 0 /\ op.a[2] = 2
     /\ op.o = "union" => op.a[2] # 0
     /\ op.o = "res" => op.a[1] + op.a[2] = 1}

-----------------------------------------------------------------------------
SInv(s) ==
  /\ DesignInv(s)
  /\ DOMAIN s.set = Lives(s)
  /\ FRange(s.set) = Sets(s)                    \* every set has a key
  /\ VCount(s) + Len(s.vfr) = s.vcap
  /\ FRange(s.vsl) \cup RangeOf(s.vfr) = 1..s.vcap
  /\ DOMAIN s.vsl = Sets(s) /\ Injective(s.vsl)
  /\ VCount(s) <= Count(s) /\ (VCount(s) = 0 <=> Count(s) = 0)
  /\ \A v, w \in Sets(s) : v # w => s.val[v][1] # s.val[w][1]

\* sets that contain no target of the operation are not affected
STouched(s, op) ==
  LET T == {op.a[i] : i \in {i \in DOMAIN op.a : i <= 2}} \cap Lives(s)
  IN UNION {KeysOf(s, s.set[h]) : h \in T}
SStepInv(s, op, t) ==
  /\ op.o \in {"sins", "sinx", "skey", "skex", "union", "remk", "rems", "inv", "set", "swapk", "swapv",
               "g2k", "g2v", "g2kv"} =>
       \A h \in Lives(s) \ STouched(s, op) :
          /\ h \in Lives(t) /\ t.live[h] = s.live[h]
          /\ KeysOf(t, t.set[h]) = KeysOf(s, s.set[h])
          /\ t.val[t.set[h]] = s.val[s.set[h]]
  /\ op.o # "into" => s.dead \subseteq t.dead
  /\ op.o # "res" /\ SStep(s, op).r = <<0>> /\ op.o # "seta" => t = s
  \* a union invalidates nothing, and afterwards both are in one set
  /\ (op.o = "union" /\ SStep(s, op).r # <<0>>) =>
       /\ t.live = s.live /\ t.set[op.a[1]] = t.set[op.a[2]]
       /\ KeysOf(t, t.set[op.a[1]]) = STouched(s, op)

SProjRow(s, h) == <<h, Tok(s, h), Con(s, h), MinOf(KeysOf(s, s.set[h])), VTok(s, h), VCon(s, h)>>
SLiveSeq(s) == LET q == SeqOf(Lives(s)) IN [i \in 1..Len(q) |-> SProjRow(s, q[i])]
SProj(s) == [live |-> SLiveSeq(s), nh |-> s.nh, cap |-> s.cap, gen |-> s.gen, vcap |-> s.vcap]
SView(s) == <<s.cap, s.vcap, {<<s.vsl[v], {Slot(s, h) : h \in KeysOf(s, v)}>> : v \in Sets(s)}>>
=============================================================================

------------------------------- MODULE MCPtr -------------------------------
(* Pointer values: an index and, for types with a counter, a generation.    *)
(* One register holds a pointer. Numbers are taken from both ends of their  *)
(* ranges: 1, 2, 3 are themselves, Top - 1 and Top the two largest values.  *)
EXTENDS Util

CONSTANTS HasGen, Ser, SimDepth
VARIABLES st, hs, pre, tag

Op(o, a) == [o |-> o, a |-> a]
Top == 5
Inx == 1..Top
Gen == IF HasGen THEN 1..Top ELSE {0}
One == IF HasGen THEN 1 ELSE 0
Two == IF HasGen THEN 2 ELSE 0

PRes(s, r) == [s |-> s, r |-> r, k |-> <<0, INF>>, g |-> <<0, 0>>]
At(i, g) == [i |-> i, g |-> g, cap |-> 0]

Less(i, g, j, h) == i < j \/ (i = j /\ g < h)
\* the order of the register and another pointer: 0 less, 1 equal, 2 greater
Cmp(s, j, h) == IF s.i = j /\ s.g = h THEN 1 ELSE IF Less(s.i, s.g, j, h) THEN 0 ELSE 2

PStep(s, op) ==
  LET a == op.a IN
  CASE op.o = "raw" -> PRes(At(a[1], a[2]), <<>>)
    \* the next generation; there is none after the largest
    [] op.o = "inc" -> IF s.g = Top THEN PRes(s, <<-1>>)
                       ELSE PRes(At(s.i, IF HasGen THEN s.g + 1 ELSE 0), <<>>)
    \* the invalid pointer, which is also the default
    [] op.o = "inv" -> PRes(At(Top, One), <<>>)
    \* serialized is the index alone
    [] op.o = "ser" -> PRes(At(s.i, Two), <<>>)
    [] op.o = "cmp" -> PRes(s, <<Cmp(s, a[1], a[2])>>)
    \* a recaster that maps the first pointer to the second
    [] op.o = "rec" -> IF s.i = a[1] /\ s.g = a[2] THEN PRes(At(a[3], a[4]), <<1>>) ELSE PRes(s, <<0>>)

POps(s) ==
       {Op("raw", <<i, g>>) : i \in Inx, g \in Gen}
  \cup (IF s.g = 3 THEN {} ELSE {Op("inc", <<>>)})
  \cup {Op("inv", <<v>>) : v \in 0..1}
  \cup (IF Ser THEN {Op("ser", <<f>>) : f \in 0..2} ELSE {})
  \cup {Op("cmp", <<i, g>>) : i \in Inx, g \in Gen}
  \cup {Op("rec", <<i, g, j, h>>) : i \in {s.i, Top + 1 - s.i}, g \in {s.g} \cup {Two}, j \in {1, Top}, h \in {One, Two}}

PInv(s) == s.i \in Inx /\ s.g \in Gen
\* neither an arena's pointers nor deserialized ones (generation 2 and above)
\* can be equal to the invalid pointer, where there are generations
PStepInv(s, op, t) ==
  /\ HasGen /\ op.o = "inc" => t # At(Top, One)
  /\ HasGen /\ op.o = "ser" => Cmp(t, Top, One) # 1
  /\ op.o \in {"inc", "ser"} => t.i = s.i
  /\ op.o = "inc" /\ PStep(s, op).r # <<-1>> /\ HasGen => Less(s.i, s.g, t.i, t.g)
PProj(s) == <<s.i, s.g>>
PView(s) == <<s.i, s.g>>
PTag(op, t) == <<op.o>>
PStarts == {[pre |-> 0, s |-> At(Top, One), q |-> <<>>]}
INSTANCE Explore WITH NRare <- {}, NGrow <- {"inc", "rec"},
                      NStep <- PStep, NOps <- POps, NInv <- PInv, NStepInv <- PStepInv,
                      NProj <- PProj, NView <- PView, NTag <- PTag, Starts <- PStarts
=============================================================================

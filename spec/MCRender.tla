------------------------------ MODULE MCRender ------------------------------
(* Graphs given to the renderer.  A node lists its sources and its sinks; an *)
(* edge may lead to a node that was removed (or, 0, never existed).          *)
EXTENDS Util

CONSTANTS MaxNodes, MaxEdges, MaxRem, SimDepth
VARIABLES st, hs, pre, tag

Op(o, a) == [o |-> o, a |-> a]
GNew == [nh |-> 0, live |-> {}, src |-> EmptyFun, snk |-> EmptyFun, cap |-> -1]
GRes(s, r) == [s |-> s, r |-> r, k |-> <<0, INF>>, g |-> <<0, 0>>]

GNode(s) == GRes([s EXCEPT !.nh = @ + 1, !.live = @ \cup {s.nh + 1}, !.src = Put(@, s.nh + 1, <<>>),
                           !.snk = Put(@, s.nh + 1, <<>>)], <<s.nh + 1>>)
GStep(s, op) ==
  LET a == op.a IN
  CASE op.o = "node" -> GNode(s)
    [] op.o = "src"  -> GRes([s EXCEPT !.src[a[1]] = Append(@, a[2])], <<>>)
    [] op.o = "snk"  -> GRes([s EXCEPT !.snk[a[1]] = Append(@, a[2])], <<>>)
    [] op.o = "rem"  -> GRes([s EXCEPT !.live = @ \ {a[1]}, !.src = Drop(@, {a[1]}), !.snk = Drop(@, {a[1]})], <<>>)

Targets(s, h) == s.src[h] \o s.snk[h]
RECURSIVE Sum(_, _)
Sum(s, S) == IF S = {} THEN 0 ELSE LET h == MinOf(S) IN Len(Targets(s, h)) + Sum(s, S \ {h})
Edges(s) == Sum(s, s.live)
GOps(s) ==
  (IF s.nh < MaxNodes THEN {Op("node", <<>>)} ELSE {})
  \cup (IF Edges(s) < MaxEdges THEN {Op(o, <<h, t>>) : o \in {"src", "snk"}, h \in s.live, t \in 0..s.nh} ELSE {})
  \cup (IF s.nh - Cardinality(s.live) < MaxRem THEN {Op("rem", <<h>>) : h \in s.live} ELSE {})

\* what the picture has to show: every node once; every edge to something
\* that is not there makes the strict variant fail, and the lenient one show
\* a node that says so
Dangling(s) == {t \in UNION {RangeOf(Targets(s, h)) : h \in s.live} : t \notin s.live}
Fails(s) == Dangling(s) # {}
\* a drawn edge leads from a source to a sink
Arrows(s) == {<<s.src[h][i], h>> : <<h, i>> \in {x \in s.live \X (1..MaxEdges) : x[2] <= Len(s.src[x[1]])}}
             \cup {<<h, s.snk[h][i]>> : <<h, i>> \in {x \in s.live \X (1..MaxEdges) : x[2] <= Len(s.snk[x[1]])}}

GInv(s) == DOMAIN s.src = s.live /\ DOMAIN s.snk = s.live /\ (Fails(s) <=> \E x \in Arrows(s) : {x[1], x[2]} \ s.live # {})
GStepInv(s, op, t) == TRUE
GProj(s) == [live |-> SeqOf(s.live), dangling |-> SeqOf(Dangling(s)), fails |-> IF Fails(s) THEN 1 ELSE 0,
             arrows |-> {x : x \in Arrows(s)}]
GView(s) == s
GTag(op, t) == <<>>
GStarts == {[pre |-> 0, s |-> GNew, q |-> <<>>]}
INSTANCE Explore WITH NRare <- {"rem"}, NGrow <- {"src", "snk"},
                      NStep <- GStep, NOps <- GOps, NInv <- GInv, NStepInv <- GStepInv,
                      NProj <- GProj, NView <- GView, NTag <- GTag, Starts <- GStarts
=============================================================================

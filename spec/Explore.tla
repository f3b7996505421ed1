------------------------------ MODULE Explore ------------------------------
(* Exploration of a structure given as pure operators (see ArenaCore): every *)
(* transition of the bounded state graph is printed together with a shortest *)
(* history that leads to it, for replay on the real types.                   *)
EXTENDS Util, Json

CONSTANTS
  NStep(_, _),        \* Step of the structure
  NOps(_),            \* set of operations explored from a state
  NInv(_),            \* design-level invariant
  NStepInv(_, _, _),  \* design-level guarantee about a transition
  NProj(_),           \* projection compared with the implementation
  NView(_),           \* what makes two states different for the exploration
  NTag(_, _),         \* part of the last operation kept in the view
  NRare, NGrow,       \* kinds of operations, for simulation
  Starts,             \* set of [pre, s, q]: label, state, initial operations
  SimDepth            \* length of the behaviours printed in simulation mode

VARIABLES st, hs, pre, tag
vars == <<st, hs, pre, tag>>

OpJson(op, t) ==
  ToJson([o |-> op.o, a |-> op.a, r |-> t.r, g |-> t.g,
          k |-> Append(t.k, t.s.cap)
                \o (IF "k2" \in DOMAIN t THEN Append(t.k2, t.s.vcap) ELSE <<>>)])
Comma(txt) == IF txt = "" THEN "" ELSE txt \o ","

RECURSIVE Run(_, _, _)
Run(s, txt, q) ==
  IF q = <<>> THEN [s |-> s, txt |-> txt]
  ELSE LET t == NStep(s, Head(q)) IN Run(t.s, Comma(txt) \o OpJson(Head(q), t), Tail(q))

Init == \E x \in Starts :
          LET p == Run(x.s, "", x.q)
          IN st = p.s /\ hs = p.txt /\ pre = x.pre /\ tag = <<>>

Do(op) ==
  LET t == NStep(st, op) IN
  /\ Assert(NStepInv(st, op, t.s), <<"StepInv", op, st>>)
  /\ st' = t.s
  /\ hs' = Comma(hs) \o OpJson(op, t)
  /\ pre' = pre
  /\ tag' = NTag(op, t)

Next == \E op \in NOps(st) : Do(op)
Spec == Init /\ [][Next]_vars

Inv == NInv(st)
MCView == <<NView(st), pre, tag>>

Line(h, s) == PrintT("@{\"h\":[" \o h \o "],\"s\":" \o ToJson(NProj(s)) \o "}")
Emit == Line(hs', st')

\* simulation: first choose the kind of operation, then its arguments; the
\* kinds that empty or restart the structure are rare, insertions frequent
SimNext ==
  \E all \in {NOps(st)} :
  \E x \in {RandomElement(1..10)} :
  \E pool \in {LET g == {op \in all : op.o \in NGrow}
                   c == {op \in all : op.o \notin NRare}
               IN IF x = 1 THEN all
                  ELSE IF x <= 3 /\ g # {} THEN g
                  ELSE IF c # {} THEN c ELSE all} :
  \E kind \in {RandomElement({op.o : op \in pool})} :
  \E op \in {RandomElement({y \in pool : y.o = kind})} : Do(op)
SimSpec == Init /\ [][SimNext]_vars
SimEmit == TLCGet("level") = SimDepth => Line(hs, st)
=============================================================================

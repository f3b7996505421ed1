------------------------------ MODULE MCLimits ------------------------------
(* What the limits of the index type and of the generation counter mean for *)
(* every kind of arena.  Only the number of entries and the counter are     *)
(* modelled; an operation stands for many calls, so that histories reach    *)
(* the limits.  r = <<-1>>: the last of these calls must panic; an insertion *)
(* that panics changes nothing, and after a failed invalidation (`over`)    *)
(* nothing more is claimed.                                                 *)
EXTENDS Util

CONSTANTS MaxInx,     \* limit of the index type, 0 if out of reach
          MaxGen,     \* limit of the counter
          Points,     \* numbers of entries to visit
          GenPoints,  \* values of the counter to visit
          Entries,    \* entry points for insertion
          OneEntry,   \* the one that inserts into one chain or set
          Wipe,       \* removal of all entries at once: 0 no, 1 of one chain or set, 2 yes
          Drain,      \* counter steps of a complete drain: 0 no drain, 1 one, 2 one per entry
          Pairs,      \* TRUE: the last operation is part of the view
          SimDepth
VARIABLES st, hs, pre, tag

\* n entries, counter gen, one: all of them were inserted into one chain or set
New == [n |-> 0, gen |-> 2, one |-> TRUE, over |-> FALSE, cap |-> -1]
Op(o, a) == [o |-> o, a |-> a]
Res(s, r, g) == [s |-> s, r |-> r, k |-> <<0, 0>>, g |-> <<g, g>>]

\* invalidating calls that advance the counter by k in total
Advance(s, k, t) ==
  IF s.gen + k <= MaxGen THEN Res([t EXCEPT !.gen = s.gen + k], <<>>, k)
  ELSE Res([s EXCEPT !.over = TRUE], <<-1>>, 0)

LStep(s, op) ==
  LET a == op.a IN
  CASE op.o = "fill" ->     \* up to a[1] entries, through entry point a[2] 
         Res([s EXCEPT !.n = a[1], !.one = (s.one \/ s.n = 0) /\ a[2] = OneEntry], <<>>, 0)
    [] op.o = "full"  -> Res(s, <<-1>>, 0)              \* one more than the limit
    [] op.o = "res"   -> Res(s, IF MaxInx > 0 /\ s.n + a[1] > MaxInx THEN <<-1>> ELSE <<>>, 0)
    [] op.o = "rem"   -> Advance(s, a[1], [s EXCEPT !.n = @ - a[1]])
    [] op.o = "inv"   -> Advance(s, a[1], s)
    [] op.o \in {"clear", "cshr"} -> Advance(s, 1, [s EXCEPT !.n = 0])
    [] op.o = "wipe"  -> Advance(s, 1, [s EXCEPT !.n = 0])
    [] op.o = "drain" -> Advance(s, IF Drain = 2 THEN s.n ELSE 1, [s EXCEPT !.n = 0])
    [] op.o = "into"  -> Res(New, <<>>, 0)              \* consumed; continues with a new arena
    [] op.o = "comp"  -> Advance(s, 1, s)
    [] op.o = "dup"   -> Res(s, <<>>, 0)

LOps(s) ==
  IF s.over THEN {} ELSE
       {Op("fill", <<m, v>>) : m \in {m \in Points : m > s.n}, v \in Entries}
  \cup (IF s.n = MaxInx /\ s.n > 0 THEN {Op("full", <<v>>) : v \in Entries} ELSE {})
  \cup {Op("res", <<k>>) : k \in IF MaxInx = 0 THEN {0, 1, 100}
                              ELSE {0, 1, MaxInx - s.n, MaxInx - s.n + 1, MaxInx}}
  \cup {Op("rem", <<k>>) : k \in {s.n - m : m \in {m \in Points : m < s.n /\ s.gen + s.n - m <= MaxGen}}}
  \cup (IF s.n > 0 /\ s.gen = MaxGen THEN {Op("rem", <<1>>)} ELSE {})
  \cup (IF s.n > 0
        THEN {Op("inv", <<g - s.gen, v>>) : g \in {g \in GenPoints : g > s.gen}, v \in 0..1}
        ELSE {})
  \cup {Op("clear", <<>>), Op("cshr", <<>>)}
  \cup {Op("comp", <<v>>) : v \in 0..2}
  \cup {Op("dup", <<v>>) : v \in 0..1}
  \cup (IF (Wipe = 2 \/ (Wipe = 1 /\ s.one)) /\ s.n > 0 THEN {Op("wipe", <<>>)} ELSE {})
  \cup (IF Drain > 0 /\ s.n > 0 /\ s.gen + (IF Drain = 2 THEN s.n + 1 ELSE 2) <= MaxGen
        THEN {Op("drain", <<>>)} ELSE {})
  \cup (IF Drain > 0 /\ s.n > 0 THEN {Op("into", <<>>)} ELSE {})

LInv(s) == (MaxInx = 0 \/ s.n \in 0..MaxInx) /\ s.gen \in 2..MaxGen
LStepInv(s, op, t) == (op.o # "into" => t.gen >= s.gen) /\ (LStep(s, op).r = <<-1>> => t.n = s.n /\ t.gen = s.gen)
LProj(s) == [n |-> s.n, gen |-> s.gen, over |-> IF s.over THEN 1 ELSE 0, max |-> MaxInx, one |-> IF s.one THEN 1 ELSE 0]
\* the last operation is part of the view: combinations of two matter near the limits
LView(s) == <<s.n, IF s.gen >= MaxGen - 2 \/ s.gen \in GenPoints THEN s.gen ELSE (s.gen > 5), s.one, s.over>>
LTag(op, t) == IF Pairs THEN op.o ELSE ""
LRare == {"clear", "cshr"}
LGrow == {"fill"}
LStarts == {[pre |-> 0, s |-> New, q |-> <<>>]}
INSTANCE Explore WITH NRare <- LRare, NGrow <- LGrow,
                      NStep <- LStep, NOps <- LOps, NInv <- LInv, NStepInv <- LStepInv,
                      NProj <- LProj, NView <- LView, NTag <- LTag, Starts <- LStarts
=============================================================================

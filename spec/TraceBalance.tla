---------------------------- MODULE TraceBalance ----------------------------
(* Costs of lookups recorded on ordered arenas that were filled and thinned *)
(* out in ways meant to unbalance them.  An event has the number of entries *)
(* n, whether there were only insertions so far, and the largest number of  *)
(* comparisons c any lookup needs.  Nothing is said about how the arena     *)
(* keeps the cost low.                                                      *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES l, bad
Trace == ndJsonDeserialize("trace.ndjson")

\* c comparisons are at most 2 * log2(n + 1)
Fast(n, c) == c < 30 /\ 2^c <= (n + 1) * (n + 1)

\* fewest entries of a tree of height h built by insertions only
RECURSIVE Least(_)
Least(h) == IF h = 0 THEN 0 ELSE IF h = 1 THEN 1 ELSE Least(h - 1) + Least(h - 2) + 1
LeastOf == [h \in 0..30 |-> Least(h)]
\* about 1.44 * log2(n): the height of such a tree, and one comparison more
InsertedFast(n, c) == c <= 1 \/ (c <= 31 /\ LeastOf[c - 1] <= n)

Wrong(e) == (IF Fast(e.n, e.c) THEN {} ELSE {"balance"})
       \cup (IF e.ins => InsertedFast(e.n, e.c) THEN {} ELSE {"balance"})
       \cup (IF e.ok THEN {} ELSE {"inv"})

Init == l = 1 /\ bad = {}
Next ==
  /\ l <= Len(Trace) /\ bad = {}
  /\ l' = l + 1
  /\ bad' = Wrong(Trace[l])
  /\ bad' # {} => PrintT("@BAD " \o ToJson([l |-> l, bad |-> bad']))
Spec == Init /\ [][Next]_<<l, bad>>
Accepted == bad = {}
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

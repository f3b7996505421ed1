------------------------------ MODULE TraceWild ------------------------------
(* Ordered arenas whose keys do not agree on an order: while a call runs,    *)
(* comparisons of the key it was given are answered arbitrarily.  The arena  *)
(* is a sequence st of rows <<pointer, key, value>>; where an insertion puts *)
(* its entry depends on the answers, but nothing else changes, whatever they *)
(* are.  An event has                                                        *)
(*   o, a, r   the call, its arguments and its result, r = <<-1>> is a panic *)
(*   ans       <<pointer, answer>> for the entries the key was compared with *)
(*             (answers -1, 0, 1: the key is less, equal, greater), lin says *)
(*             how many of these may come from a linear search               *)
(*   it, bk    rows by iteration, pointers by following previous links from  *)
(*             the last; fl the first and last pointer; len                  *)
(*   ok        whether exactly these pointers of all that were ever issued   *)
(*             are accepted, each with its key and value                     *)
(*   tok       how many keys and values exist; dbl if one was dropped twice  *)
(*   d         the largest number of entries a search for one side looks at  *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES l, st, bad
Trace == ndJsonDeserialize("trace.ndjson")

RangeOf(s) == {s[i] : i \in DOMAIN s}
Fail(b, what) == IF b THEN {} ELSE {what}
\* c comparisons are at most 2 * log2(n + 1)
Fast(n, c) == c < 30 /\ 2^c <= (n + 1) * (n + 1)

Ptrs(s) == {s[i][1] : i \in DOMAIN s}
At(s, p) == CHOOSE i \in DOMAIN s : s[i][1] = p
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Before(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Equals(e) == {x \in RangeOf(e.ans) : x[2] = 0}

\* the new entry is next to one that it was compared with, on the side of the answer
Placed(e, x) ==
  \/ st = <<>> /\ e.it = <<x>>
  \/ \E y \in RangeOf(e.ans) :
       /\ y[1] \in Ptrs(st)
       /\ \/ y[2] <= 0 /\ e.it = Before(st, At(st, y[1]), x)
          \/ y[2] >= 0 /\ e.it = Before(st, At(st, y[1]) + 1, x)

\* a = <<replaces equal entries?, key, value>>
Insert(e) ==
  LET x == <<e.r[1], e.a[2], e.a[3]>> IN
  IF e.a[1] = 1 /\ Equals(e) # {}
  THEN IF Len(e.r) = 3 /\ <<e.r[1], 0>> \in Equals(e) /\ e.r[1] \in Ptrs(st)
       THEN LET i == At(st, e.r[1]) IN
                 Fail(e.r[2] = e.a[2] /\ e.r[3] = st[i][3], "ret")
            \cup Fail(e.it = [st EXCEPT ![i][3] = e.a[3]], "set")
       ELSE {"ret"}
  ELSE Fail(Len(e.r) = 1 /\ e.r[1] \notin Ptrs(st), "ret")
  \cup Fail(Placed(e, x), "order")

\* a = <<pointer, side, key, value>>
Manual(e) ==
  LET i == At(st, e.a[1])
      x == <<e.r[1], e.a[3], e.a[4]>> IN
  IF e.a[2] = 0
  THEN Fail(e.r = <<e.a[1], e.a[3], st[i][3]>>, "ret") \cup Fail(e.it = [st EXCEPT ![i][3] = e.a[4]], "set")
  ELSE Fail(Len(e.r) = 1 /\ e.r[1] \notin Ptrs(st), "ret")
  \cup Fail(e.it = Before(st, IF e.a[2] < 0 THEN i ELSE i + 1, x), "order")

Same(e) == Fail(e.it = st, "set")

Wrong(e) ==
  CASE e.o = "new" -> Fail(e.it = <<>>, "set")
    [] e.r = <<-1>> -> {"panic"}
    [] e.o = "ins" -> Insert(e)
    [] e.o = "man" -> Manual(e)
    [] e.o = "find" -> Fail(IF Equals(e) = {} THEN e.r = <<0>> ELSE <<e.r[1], 0>> \in Equals(e), "find") \cup Same(e)
    [] e.o = "sim" -> Fail(IF st = <<>> THEN e.r = <<0>> ELSE e.r \in RangeOf(e.ans), "find") \cup Same(e)
    [] e.o = "rem" -> LET i == At(st, e.a[1]) IN
                      Fail(e.r = <<st[i][2], st[i][3]>>, "ret") \cup Fail(e.it = Without(st, i), "set")
    [] e.o = "inv" -> LET i == At(st, e.a[1]) IN
                      Fail(e.r[1] \notin Ptrs(st) /\ e.it = [st EXCEPT ![i][1] = e.r[1]], "set")
    [] e.o = "set" -> LET i == At(st, e.a[1]) IN Fail(e.it = [st EXCEPT ![i][3] = e.a[2]], "set")
    [] e.o = "comp" -> Fail(/\ [i \in DOMAIN e.it |-> <<e.it[i][2], e.it[i][3]>>] = [i \in DOMAIN st |-> <<st[i][2], st[i][3]>>]
                            /\ \A i \in DOMAIN e.it : e.it[i][1] \notin Ptrs(st), "comp")
    [] e.o = "copy" -> Same(e)
    [] e.o = "clear" -> Fail(e.it = <<>>, "set")
    [] e.o = "drain" -> Fail(e.y = st, "iter") \cup Fail(e.it = <<>>, "set")
    [] OTHER -> {"op"}

Shape(e) ==
       Fail(e.len = Len(e.it), "len")
  \cup Fail(e.bk = [i \in DOMAIN e.it |-> e.it[Len(e.it) + 1 - i][1]], "order")
  \cup Fail(e.fl = (IF e.it = <<>> THEN <<0, 0>> ELSE <<e.it[1][1], e.it[Len(e.it)][1]>>), "order")
  \cup Fail(e.ok, "valid")
  \cup Fail(e.tok = 2 * Len(e.it) /\ ~e.dbl, "drops")
  \cup Fail(Fast(Len(e.it), e.d), "balance")
  \cup Fail(Fast(Len(st), IF Len(e.ans) > e.lin THEN Len(e.ans) - e.lin ELSE 0), "balance")

Init == l = 1 /\ st = <<>> /\ bad = {}
Next ==
  /\ l <= Len(Trace) /\ bad = {}
  /\ l' = l + 1
  /\ st' = Trace[l].it
  /\ bad' = Wrong(Trace[l]) \cup Shape(Trace[l])
  /\ bad' # {} => PrintT("@BAD " \o ToJson([l |-> l, bad |-> bad']))
Spec == Init /\ [][Next]_<<l, st, bad>>
Accepted == bad = {}
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

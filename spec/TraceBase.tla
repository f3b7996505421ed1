----------------------------- MODULE TraceBase -----------------------------
(* Validates recorded calls on real arenas.  Each event carries the          *)
(* operation, its arguments as handles, the observed result, and the scalar  *)
(* state after the call:                                                     *)
(*   o, a, r   as in the specification; r = <<-1>> if the call panicked      *)
(*   len, cap  observed; gen observed, 0 if the type has no counter          *)
(*   raw       newly issued pointers <<handle, index, generation>>           *)
(*   live      (on some events) <<handle, token, content>> for every handle  *)
(*             ever issued that the arena accepts, ascending                 *)
(*   it        (with live) the same, as seen by iteration                    *)
(* and what NExtra looks at.  An event "new" starts an independent arena;    *)
(* mi, mg are its limits.                                                    *)
EXTENDS Util, Json

CONSTANTS Trace,         \* the events
          NStep(_, _), NNew, NCount(_), NLives(_), NLiveSeq(_), NExtra(_, _), NAdopt(_, _),
          NMustPanic(_, _), NMayPanic(_, _)

VARIABLES l, st, issued, bad
tvars == <<l, st, issued, bad>>

Has(e, f) == f \in DOMAIN e
Fail(b, what) == IF b THEN {} ELSE {what}
In(x, iv) == iv[1] <= x /\ x <= iv[2]
Fresh(e) == {<<e.raw[i][2], e.raw[i][3]>> : i \in DOMAIN e.raw}

Diff(e, t) ==
  LET s == t.s
      base == IF e.o = "into" THEN {} ELSE issued
  IN      Fail(e.r = t.r, IF e.o = "adv" THEN "adv" ELSE IF t.r = <<0>> THEN "stale" ELSE "ret")
     \cup Fail(~Has(e, "div"), IF Has(e, "div") THEN e.div[1] ELSE "")
     \cup Fail(e.len = NCount(s), "len")
     \cup Fail(In(e.cap, t.k), "cap")
     \cup Fail(e.gen = 0 \/ e.o = "into" \/ In(e.gen - st.gen, t.g), "gen")
     \cup Fail(e.gen = 0 \/ Fresh(e) \cap base = {}, "fresh")
     \cup Fail(Cardinality(Fresh(e)) = Len(e.raw), "fresh")
     \cup Fail(~Has(e, "live") \/ \A i \in DOMAIN e.live : e.live[i][1] \in NLives(s), "stale")
     \cup Fail(~Has(e, "live") \/ \A i \in DOMAIN NLiveSeq(s) :
                   NLiveSeq(s)[i] \in RangeOf(e.live), "valid")
     \cup Fail(~Has(e, "it") \/ e.it = NLiveSeq(s), "iter")
     \cup NExtra(e, t)

Init == l = 1 /\ st = NNew /\ issued = {} /\ bad = {}

Next ==
  /\ l <= Len(Trace) /\ bad = {}
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.o = "new"
     THEN /\ st' = [NNew EXCEPT !.mi = e.mi, !.mg = e.mg]
          /\ issued' = {} /\ bad' = {}
     ELSE IF e.r = <<-1>>
     THEN /\ bad' = Fail(NMustPanic(st, e) \/ NMayPanic(st, e), "panic")
                    \cup Fail(e.len = NCount(st), "len")
          /\ st' = NAdopt(st, e) /\ issued' = issued
     ELSE LET t == NStep(st, e) IN
          /\ bad' = Diff(e, t) \cup Fail(~NMustPanic(st, e), "limit")
          /\ st' = NAdopt(t.s, e)
          /\ issued' = (IF e.o = "into" THEN {} ELSE issued) \cup Fresh(e)
  /\ bad' # {} => PrintT("@BAD " \o ToJson([l |-> l, bad |-> bad']))

Spec == Init /\ [][Next]_tvars
Accepted == bad = {}
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

----------------------------- MODULE TraceLoop -----------------------------
(* Recorded loops over a whole arena, see AdvOf: BStep is extended by        *)
(*   astart <<0, 0>>    a loop begins                                        *)
(*   adv <<>>           and yields the handle r[1], or ends if r[1] is 0     *)
(* The field `lp` holds the handles that have to be yielded and those that   *)
(* were.                                                                     *)
EXTENDS Util
CONSTANTS BStep(_, _), BLives(_)

NoLoop == [must |-> {}, y |-> {}]
WithLoop(s) == [x \in {"lp"} |-> NoLoop] @@ s
LStay(s, r) == [s |-> s, r |-> r, k |-> <<s.cap, s.cap>>, g |-> <<0, 0>>]
               @@ (IF "vcap" \in DOMAIN s THEN [k2 |-> <<s.vcap, s.vcap>>] ELSE <<>>)
LoopStep(s, e) ==
  CASE e.o = "astart" -> LStay([s EXCEPT !.lp = [must |-> BLives(s), y |-> {}]], <<>>)
    [] e.o = "adv" ->
         LET h == e.r[1]
             ok == IF h = 0 THEN s.lp.must \subseteq s.lp.y ELSE h \in BLives(s) \ s.lp.y
         IN LStay([s EXCEPT !.lp.y = @ \cup {h}], IF ok THEN e.r ELSE <<-7>>)
    [] OTHER ->
         LET t == BStep(s, e)
         IN IF e.o = "into" THEN [t EXCEPT !.s = WithLoop(t.s)]
            ELSE [t EXCEPT !.s.lp.must = @ \cap BLives(t.s)]
Quiet(e) == e.o \in {"astart", "adv"}
=============================================================================

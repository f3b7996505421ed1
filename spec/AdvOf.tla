------------------------------- MODULE AdvOf -------------------------------
(* Loops that advance through a structure while it is modified.  A state is *)
(* a state of the structure with a further field `lp`:                      *)
(*    ph    0 before the loop, 1 in it, 2 after it                          *)
(*    kind, h   which advancer, started from which handle                   *)
(*    must  handles the loop has to yield: they were there when it began    *)
(*          and still are                                                   *)
(*    dy, pos   what the design yields, and where it is                     *)
(*    na, nm    advances and modifications so far                           *)
(* Advancing does not change the structure.  An advance may yield any       *)
(* allowed handle that was not yielded before, and may end the loop once    *)
(* all of `must` was yielded; its specified result lists `must` and the     *)
(* allowed handles, and the conformance check judges what the code yields.  *)
(* The design, given by BNext, is one such advancer, checked by TLC.        *)
(* Kind 3 is a loop over a part whose body may change that part: which      *)
(* handles it yields is open, as long as they are live and the loop ends    *)
(* once the body stops changing things.                                     *)
EXTENDS Util

CONSTANTS BNew, BStep(_, _), BInv(_), BStepInv(_, _, _), BProj(_),
          BSetup(_),          \* operations before the loop
          BLoop(_),           \* operations in the loop
          BStarts(_),         \* set of <<kind, handle>>: loops that can be started
          BWalk(_, _, _),     \* handles the loop has to yield, at its start
          BAllowed(_, _),     \* sequence of handles that may be yielded
          BLegal(_, _, _, _), \* may the loop body do this?
          BNext(_, _),        \* what the design yields next, 0 at the end
          BPos(_, _),         \* its position after that
          BAView(_),          \* view of the structure and of the position
          MaxMut,             \* number of modifications
          Again               \* may another loop follow?

NoLoop == [ph |-> 0, kind |-> 0, h |-> 0, must |-> {}, dy |-> {}, pos |-> 0, na |-> 0, nm |-> 0]
NewAdv == [x \in {"lp"} |-> NoLoop] @@ BNew
Stay(s, r) == [s |-> s, r |-> r, k |-> <<s.cap, s.cap>>, g |-> <<0, 0>>]
              @@ (IF "vcap" \in DOMAIN s THEN [k2 |-> <<s.vcap, s.vcap>>] ELSE <<>>)

Demand(s) == IF s.lp.kind = 3 THEN <<-1>> ELSE LET m == SeqOf(s.lp.must) IN <<Len(m)>> \o m \o BAllowed(s, s.lp)

AStep(s, op) ==
  CASE op.o = "astart" ->
         Stay([s EXCEPT !.lp = [NoLoop EXCEPT !.ph = 1, !.kind = op.a[1], !.h = op.a[2],
                                              !.must = IF op.a[1] = 3 THEN {} ELSE BWalk(s, op.a[1], op.a[2])]], <<>>)
    [] op.o = "adv" ->
         IF s.lp.kind = 3 THEN Stay([s EXCEPT !.lp.na = @ + 1], Demand(s))
         ELSE LET h == BNext(s, s.lp)
         IN Stay([s EXCEPT !.lp.dy = @ \cup {h}, !.lp.na = @ + 1, !.lp.pos = BPos(s, h)], Demand(s))
    [] op.o = "afin" -> Stay([s EXCEPT !.lp = IF Again THEN NoLoop ELSE [@ EXCEPT !.ph = 2]], Demand(s))
    [] OTHER ->
         LET t == BStep(s, op)
         IN IF s.lp.ph = 0 THEN t
            ELSE [t EXCEPT !.s.lp.must = @ \cap DOMAIN t.s.live, !.s.lp.nm = @ + 1]

Count1(s) == Cardinality(DOMAIN s.live)
AOp(o, a) == [o |-> o, a |-> a]
AOps(s) ==
  CASE s.lp.ph = 0 -> BSetup(s) \cup {AOp("astart", x) : x \in BStarts(s)}
    [] s.lp.ph = 1 ->
            (IF IF s.lp.kind = 3 THEN s.lp.na <= Count1(s) ELSE BNext(s, s.lp) # 0 THEN {AOp("adv", <<>>)} ELSE {})
       \cup {AOp("afin", <<>>)}
       \cup (IF s.lp.nm < MaxMut THEN {op \in BLoop(s) : BLegal(s, op, BStep(s, op).s, s.lp)} ELSE {})
    [] s.lp.ph = 2 -> {}

AInv(s) ==
  /\ BInv(s)
  /\ s.lp.ph = 1 /\ s.lp.kind # 3 =>
       /\ Cardinality(s.lp.dy) = s.lp.na                             \* never twice
       /\ BNext(s, s.lp) = 0 => s.lp.must \subseteq s.lp.dy           \* nothing missed
       /\ BNext(s, s.lp) # 0 => BNext(s, s.lp) \in RangeOf(BAllowed(s, s.lp)) \ s.lp.dy
AStepInv(s, op, t) == op.o \in {"astart", "adv", "afin"} \/ BStepInv(s, op, [t EXCEPT !.lp = s.lp])
AProj(s) == BProj(s)
AView(s) == <<BAView(s), s.lp.ph, s.lp.kind, s.lp.nm>>
=============================================================================

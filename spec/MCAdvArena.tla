----------------------------- MODULE MCAdvArena -----------------------------
(* Loops over basic arenas; the body may do anything.                       *)
EXTENDS ArenaCore

CONSTANTS MaxCap, MaxMut, Again, SimDepth
VARIABLES st, hs, pre, tag

GrowOk(s) == ~Full(s) \/ Max2(1, 2 * s.cap) <= MaxCap
VSetup(s) == (IF GrowOk(s) THEN {Op("ins", <<0>>)} ELSE {}) \cup {Op("rem", <<h>>) : h \in Lives(s)}
VLoop(s) ==
       (IF GrowOk(s) THEN {Op("ins", <<0>>)} ELSE {})
  \cup {Op(o, <<h>>) : o \in {"rem", "inv", "ru"}, h \in Lives(s)}
  \cup {Op("clear", <<>>), Op("cshr", <<>>), Op("comp", <<0>>)}
  \cup {Op("rmby", SeqOf(S)) : S \in {S \in SUBSET Lives(s) : Cardinality(S) >= 2}}
  \cup {Op("swap", <<x, y>>) : x \in Lives(s), y \in Lives(s)}
  \cup (IF s.cap + 1 <= MaxCap THEN {Op("res", <<1>>)} ELSE {})
VStarts(s) == {<<0, 0>>}
VWalk(s, kind, h) == Lives(s)
VAllowed(s, lp) == SeqOf(Lives(s))
VLegal(s, op, t, lp) == TRUE
VNext(s, lp) ==
  LET ahead == {x \in {Slot(s, h) : h \in Lives(s)} : x > lp.pos}
  IN IF ahead = {} THEN 0 ELSE CHOOSE h \in Lives(s) : Slot(s, h) = MinOf(ahead)
VPos(s, h) == Slot(s, h)
VView(s) == <<s.cap, s.fr, s.lp.pos, {Slot(s, h) : h \in s.lp.must \ s.lp.dy}>>
NoLp == [ph |-> 0, kind |-> 0, h |-> 0, must |-> {}, dy |-> {}, pos |-> 0, na |-> 0, nm |-> 0]
MStarts == {[pre |-> 0, s |-> [x \in {"lp"} |-> NoLp] @@ NewArena, q |-> <<>>]}
INSTANCE AdvOf WITH BNew <- NewArena, BStep <- Step, BInv <- DesignInv, BStepInv <- StepInv, BProj <- Proj,
                    BSetup <- VSetup, BLoop <- VLoop, BStarts <- VStarts, BWalk <- VWalk,
                    BAllowed <- VAllowed, BLegal <- VLegal, BNext <- VNext, BPos <- VPos, BAView <- VView
MTag(op, t) == <<>>
MRare == {"clear", "cshr", "comp", "afin", "astart"}
MGrow == {"ins", "adv"}
INSTANCE Explore WITH NRare <- MRare, NGrow <- MGrow,
                      NStep <- AStep, NOps <- AOps, NInv <- AInv, NStepInv <- AStepInv,
                      NProj <- AProj, NView <- AView, NTag <- MTag, Starts <- MStarts
EmitLoop == st.lp.ph = 1 /\ st'.lp.ph # 1 => Emit
=============================================================================

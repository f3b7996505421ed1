---------------------------- MODULE MCAdvSurject ----------------------------
(* Loops over surjection arenas.  A loop over the whole arena (kind 0) may   *)
(* do anything; one over the set of a key (kind 1) must leave the set's      *)
(* members alone, unless it is of kind 3.                                    *)
EXTENDS SurjectCore

CONSTANTS MaxCap, MaxMut, Again, SimDepth,
          Free   \* loops of kind 3 only
VARIABLES st, hs, pre, tag

KOk(s) == ~Full(s) \/ Max2(1, 2 * s.cap) <= MaxCap
VOk(s) == ~VFull(s) \/ Max2(1, 2 * s.vcap) <= MaxCap
VSetup(s) ==
       (IF KOk(s) /\ VOk(s) THEN {Op("sins", <<0>>)} ELSE {})
  \cup (IF KOk(s) THEN {Op("skey", <<h, 0>>) : h \in Lives(s)} ELSE {})
  \cup (IF Free THEN {} ELSE {Op("remk", <<h>>) : h \in Lives(s)})
VLoop(s) ==
       VSetup(s)
  \cup {Op("remk", <<h>>) : h \in Lives(s)}
  \cup {Op(o, <<h>>) : o \in {"rems", "inv"}, h \in Lives(s)}
  \cup {Op(o, <<x, y>>) : o \in {"union", "swapk", "swapv"}, x \in Lives(s), y \in Lives(s)}
  \cup {Op("clear", <<>>), Op("cshr", <<>>), Op("comp", <<0>>)}
  \cup (IF s.cap + 1 <= MaxCap THEN {Op("res", <<1, 0>>)} ELSE {})
VStarts(s) == IF Free THEN {<<3, h>> : h \in IF Count(s) < MaxCap THEN Lives(s) ELSE {}} ELSE {<<0, 0>>} \cup {<<1, h>> : h \in Lives(s)}
VWalk(s, kind, h) == IF kind = 0 THEN Lives(s) ELSE KeysOf(s, s.set[h])
VAllowed(s, lp) == SeqOf(IF lp.kind = 0 THEN Lives(s) ELSE lp.must)
VLegal(s, op, t, lp) ==
  lp.kind = 1 => lp.h \in Lives(t) /\ KeysOf(t, t.set[lp.h]) = KeysOf(s, s.set[lp.h])
VNext(s, lp) ==
  IF lp.kind = 0
  THEN LET ahead == {x \in {Slot(s, h) : h \in Lives(s)} : x > lp.pos}
       IN IF ahead = {} THEN 0 ELSE CHOOSE h \in Lives(s) : Slot(s, h) = MinOf(ahead)
  ELSE LET w == lp.must \ lp.dy IN IF w = {} THEN 0 ELSE MinOf(w)
VPos(s, h) == Slot(s, h)
VView(s) == <<SView(s), s.lp.pos, s.lp.na,
              IF s.lp.kind = 0 THEN {Slot(s, h) : h \in s.lp.must \ s.lp.dy}
              ELSE IF s.lp.h \in Lives(s) THEN {Slot(s, s.lp.h)} ELSE {}>>
NoLp == [ph |-> 0, kind |-> 0, h |-> 0, must |-> {}, dy |-> {}, pos |-> 0, na |-> 0, nm |-> 0]
MStarts == {[pre |-> 0, s |-> [x \in {"lp"} |-> NoLp] @@ NewSurject, q |-> <<>>]}
INSTANCE AdvOf WITH BNew <- NewSurject, BStep <- SStep, BInv <- SInv, BStepInv <- SStepInv, BProj <- SProj,
                    BSetup <- VSetup, BLoop <- VLoop, BStarts <- VStarts, BWalk <- VWalk,
                    BAllowed <- VAllowed, BLegal <- VLegal, BNext <- VNext, BPos <- VPos, BAView <- VView
MTag(op, t) == <<>>
MRare == {"clear", "cshr", "comp", "rems", "afin", "astart"}
MGrow == {"sins", "skey", "adv"}
INSTANCE Explore WITH NRare <- MRare, NGrow <- MGrow,
                      NStep <- AStep, NOps <- AOps, NInv <- AInv, NStepInv <- AStepInv,
                      NProj <- AProj, NView <- AView, NTag <- MTag, Starts <- MStarts
EmitLoop == st.lp.ph = 1 /\ (st'.lp.ph # 1 \/ (Free /\ st'.lp.nm # st.lp.nm)) => Emit
=============================================================================

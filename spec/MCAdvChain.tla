----------------------------- MODULE MCAdvChain -----------------------------
(* Loops over chain arenas.  A loop over the whole arena (kind 0) may do     *)
(* anything; one over the chain of a link (kind 1) must not change that      *)
(* chain, other than its contents, unless it is of kind 3.                   *)
EXTENDS ChainCore

CONSTANTS MaxCap, MaxMut, Again, SimDepth,
          Free   \* loops of kind 3 only
VARIABLES st, hs, pre, tag

GrowOk(s) == ~Full(s) \/ Max2(1, 2 * s.cap) <= MaxCap
VSetup(s) ==
       (IF GrowOk(s) THEN {Op("cnew", <<0>>), Op("cnew", <<2>>)}
                          \cup {Op("cins", <<h, -1, 0>>) : h \in Lives(s)} ELSE {})
  \cup (IF Free THEN {} ELSE {Op("rem", <<h>>) : h \in Lives(s)})
VChange(s) ==
       (IF GrowOk(s) THEN {Op("cins", <<h, -1, 0>>) : h \in Lives(s)} ELSE {})
  \cup {Op(o, <<h>>) : o \in {"rem", "remc", "inv", "brkn"}, h \in Lives(s)}
  \cup {Op(o, <<x, y>>) : o \in {"conn", "exch"}, x \in Lives(s), y \in Lives(s)}
  \cup {Op("cshr", <<>>), Op("comp", <<0>>)}
VLoop(s) ==
  IF Free THEN VChange(s)
  ELSE VChange(s)
       \cup (IF GrowOk(s) THEN {Op("cnew", <<0>>), Op("cnew", <<2>>)} ELSE {})
       \cup {Op(o, <<h>>) : o \in {"ru", "rk"}, h \in Lives(s)}
       \cup {Op("swap", <<x, y>>) : x \in Lives(s), y \in Lives(s)}
       \cup {Op("clear", <<>>)}
       \cup (IF s.cap + 1 <= MaxCap THEN {Op("res", <<1>>)} ELSE {})
VStarts(s) == IF Free THEN {<<3, h>> : h \in IF Count(s) < MaxCap THEN Lives(s) ELSE {}} ELSE {<<0, 0>>} \cup {<<1, h>> : h \in Lives(s)}
VWalk(s, kind, h) == IF kind = 0 THEN Lives(s) ELSE ChainOf(s, h)
VAllowed(s, lp) == SeqOf(IF lp.kind = 0 THEN Lives(s) ELSE lp.must)
VLegal(s, op, t, lp) ==
  lp.kind = 1 => \A x \in ChainOf(s, lp.h) :
                   x \in Lives(t) /\ NextOr0(t, x) = NextOr0(s, x) /\ PrevOr0(t, x) = PrevOr0(s, x)
VNext(s, lp) ==
  IF lp.kind = 0
  THEN LET ahead == {x \in {Slot(s, h) : h \in Lives(s)} : x > lp.pos}
       IN IF ahead = {} THEN 0 ELSE CHOOSE h \in Lives(s) : Slot(s, h) = MinOf(ahead)
  ELSE LET w == Walk(s, lp.h) IN IF lp.na < Len(w) THEN w[lp.na + 1] ELSE 0
VPos(s, h) == Slot(s, h)
VView(s) == <<CView(s), s.lp.pos, s.lp.na,
              IF s.lp.kind = 0 THEN {Slot(s, h) : h \in s.lp.must \ s.lp.dy}
              ELSE IF s.lp.h \in Lives(s) THEN {Slot(s, s.lp.h)} ELSE {}>>
NoLp == [ph |-> 0, kind |-> 0, h |-> 0, must |-> {}, dy |-> {}, pos |-> 0, na |-> 0, nm |-> 0]
MStarts == {[pre |-> 0, s |-> [x \in {"lp"} |-> NoLp] @@ NewChain, q |-> <<>>]}
INSTANCE AdvOf WITH BNew <- NewChain, BStep <- CStep, BInv <- CInv, BStepInv <- CStepInv, BProj <- CProj,
                    BSetup <- VSetup, BLoop <- VLoop, BStarts <- VStarts, BWalk <- VWalk,
                    BAllowed <- VAllowed, BLegal <- VLegal, BNext <- VNext, BPos <- VPos, BAView <- VView
MTag(op, t) == <<>>
MRare == {"clear", "cshr", "comp", "remc", "afin", "astart"}
MGrow == {"cnew", "cins", "adv"}
INSTANCE Explore WITH NRare <- MRare, NGrow <- MGrow,
                      NStep <- AStep, NOps <- AOps, NInv <- AInv, NStepInv <- AStepInv,
                      NProj <- AProj, NView <- AView, NTag <- MTag, Starts <- MStarts
EmitLoop == st.lp.ph = 1 /\ (st'.lp.ph # 1 \/ (Free /\ st'.lp.nm # st.lp.nm)) => Emit
=============================================================================

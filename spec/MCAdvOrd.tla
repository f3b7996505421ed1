------------------------------ MODULE MCAdvOrd ------------------------------
(* Loops over ordered arenas, from the least key (kind 0) or from an entry   *)
(* (kind 2) on, in key order.  The body must not invalidate the next greater *)
(* entry.  `pos` is the entry that the design yields next, -1 at the end.    *)
EXTENDS OrdCore

CONSTANTS MaxCap, MaxLen, MaxMut, Again, SimDepth
VARIABLES st, hs, pre, tag

Grow1(s) == Count(s) < MaxLen /\ (~Full(s) \/ Max2(1, 2 * s.cap) <= MaxCap)
VSetup(s) ==
       (IF Grow1(s) THEN {Op("oins", <<n, 0, 0, 0>>) : n \in 0..Count(s)} ELSE {})
  \cup {Op("rem", <<h>>) : h \in Lives(s)}
VLoop(s) ==
       VSetup(s)
  \cup {Op(o, <<h>>) : o \in {"inv", "ru", "rk"}, h \in Lives(s)}
  \cup {Op("swap", <<x, y>>) : x \in Lives(s), y \in Lives(s)}
  \cup {Op("clear", <<>>), Op("cshr", <<>>)}
  \cup (IF s.cap + 1 <= MaxCap THEN {Op("res", <<1>>)} ELSE {})

From(s, h) == IF h = 0 THEN s.seq ELSE SubSeq(s.seq, PosIn(s.seq, h), Len(s.seq))
After(s, h) == IF PosIn(s.seq, h) = Len(s.seq) THEN -1 ELSE s.seq[PosIn(s.seq, h) + 1]
VStarts(s) == {<<0, 0>>} \cup {<<2, h>> : h \in Lives(s)}
VWalk(s, kind, h) == RangeOf(From(s, h))
VAllowed(s, lp) == s.seq
\* where the design is: before the first advance at the entry it starts from
At(s, lp) == IF lp.na > 0 THEN lp.pos
             ELSE IF lp.kind = 2 THEN lp.h
             ELSE IF lp.must = {} THEN -1 ELSE CHOOSE h \in lp.must : \A x \in lp.must : PosIn(s.seq, h) <= PosIn(s.seq, x)
Last(s, lp) == {h \in lp.dy \cap Lives(s) : \A x \in lp.dy \cap Lives(s) : PosIn(s.seq, x) <= PosIn(s.seq, h)}
VLegal(s, op, t, lp) ==
  LET keep == {At(s, lp)} \cup {After(s, h) : h \in Last(s, lp)}
  IN \A h \in keep \cap Lives(s) : h \in Lives(t)
VNext(s, lp) == IF At(s, lp) = -1 THEN 0 ELSE At(s, lp)
VPos(s, h) == After(s, h)
Rel(s, h) == IF h \in Lives(s) THEN PosIn(s.seq, h) ELSE h
VView(s) == <<OView(s), s.lp.na > 0, Rel(s, At(s, s.lp)), {PosIn(s.seq, h) : h \in Last(s, s.lp)},
              {PosIn(s.seq, h) : h \in s.lp.must \ s.lp.dy}>>
NoLp == [ph |-> 0, kind |-> 0, h |-> 0, must |-> {}, dy |-> {}, pos |-> 0, na |-> 0, nm |-> 0]
MStarts == {[pre |-> 0, s |-> [x \in {"lp"} |-> NoLp] @@ NewOrd, q |-> <<>>]}
INSTANCE AdvOf WITH BNew <- NewOrd, BStep <- OStep, BInv <- OInv, BStepInv <- OStepInv, BProj <- OProj,
                    BSetup <- VSetup, BLoop <- VLoop, BStarts <- VStarts, BWalk <- VWalk,
                    BAllowed <- VAllowed, BLegal <- VLegal, BNext <- VNext, BPos <- VPos, BAView <- VView
MTag(op, t) == <<>>
MRare == {"clear", "cshr", "afin", "astart"}
MGrow == {"oins", "adv"}
INSTANCE Explore WITH NRare <- MRare, NGrow <- MGrow,
                      NStep <- AStep, NOps <- AOps, NInv <- AInv, NStepInv <- AStepInv,
                      NProj <- AProj, NView <- AView, NTag <- MTag, Starts <- MStarts
EmitLoop == st.lp.ph = 1 /\ st'.lp.ph # 1 => Emit
=============================================================================

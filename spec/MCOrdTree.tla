----------------------------- MODULE MCOrdTree -----------------------------
(* Exhaustive exploration of the trees of larger ordered arenas: insertion  *)
(* at every place, removal of every entry and compression, without equal    *)
(* keys.  The capacity is made large enough first.                          *)
EXTENDS OrdCore

CONSTANTS MaxLen, SimDepth
VARIABLES st, hs, pre, tag

MOps(s) ==
       (IF Count(s) < MaxLen THEN {Op("oins", <<n, 0, 0, 0>>) : n \in 0..Count(s)} ELSE {})
  \cup {Op("rem", <<h>>) : h \in Lives(s)}
  \cup {Op("comp", <<0>>)}
MStarts == {[pre |-> 0, s |-> NewOrd, q |-> <<>>]}
MTag(op, t) == <<>>
MRare == {}
MGrow == {"oins"}
MView(s) == Shape(s.tree)

INSTANCE Explore WITH NRare <- MRare, NGrow <- MGrow,
                      NStep <- OStep, NOps <- MOps, NInv <- OInv, NStepInv <- OStepInv,
                      NProj <- OProj, NView <- MView, NTag <- MTag, Starts <- MStarts
=============================================================================

------------------------------ MODULE PairOf -------------------------------
(* Two arenas of one kind that can be cloned into each other.  Pointers of  *)
(* the source denote the corresponding entries of the clone; afterwards     *)
(* both evolve independently.  Variants of copying: 0 clone_from,           *)
(* 1 clone_from_with, 2 assignment of a new clone.                          *)
EXTENDS Util

CONSTANTS BNew, BStep(_, _), BOps(_), BInv(_), BStepInv(_, _, _), BProj(_), BView(_), BCopy(_, _)

NewPair == [x |-> BNew, y |-> BNew, cap |-> 0, cp |-> 0, vcap |-> 0]

Other(w) == IF w = "x" THEN "y" ELSE "x"
Which(op) == op.w
WithTokens(s, w) == [s[w] EXCEPT !.nt = Max2(s.x.nt, s.y.nt)]
VCap(z) == IF "vcap" \in DOMAIN z THEN z.vcap ELSE 0

PStep(s, op) ==
  LET w == op.w IN
  IF op.b.o = "copy"
  THEN LET z == IF op.b.a[1] = 2 THEN s[Other(w)] ELSE BCopy(s[w], s[Other(w)]) IN
       [s |-> [s EXCEPT ![w] = z, !.cap = z.cap, !.vcap = VCap(z), !.cp = IF w = "x" THEN 1 ELSE 2],
        r |-> <<>>, k |-> <<z.cap, z.cap>>, k2 |-> <<VCap(z), VCap(z)>>, g |-> <<-INF, INF>>]
  ELSE LET t == BStep(WithTokens(s, w), op.b) IN
       [s |-> [s EXCEPT ![w] = t.s, !.cap = t.s.cap, !.vcap = VCap(t.s)],
        r |-> t.r, k |-> t.k, k2 |-> IF "k2" \in DOMAIN t THEN t.k2 ELSE <<0, 0>>, g |-> t.g]

POp(w, b) == [o |-> w \o "." \o b.o, a |-> b.a, w |-> w, b |-> b]
POps(s) ==
  UNION {{POp(w, b) : b \in BOps(WithTokens(s, w))}
         \cup {POp(w, [o |-> "copy", a |-> <<v>>]) : v \in 0..2} : w \in {"x", "y"}}
  
PInv(s) == BInv(s.x) /\ BInv(s.y)

\* an operation on one arena never affects the other; a copy has exactly the
\* valid pointers of its source
PStepInv(s, op, t) ==
  /\ t[Other(op.w)] = s[Other(op.w)]
  /\ op.b.o # "copy" => BStepInv(WithTokens(s, op.w), op.b, t[op.w])
  /\ op.b.o = "copy" =>
       /\ t[op.w].live = s[Other(op.w)].live
       /\ t[op.w].raw = s[Other(op.w)].raw
       /\ op.b.a[1] # 2 => t[op.w].cap = Max2(s.x.cap, s.y.cap)
PProj(s) == [x |-> BProj(s.x), y |-> BProj(s.y)]

\* slots in which both hold the same pointer
Agree(s) == {s.x.raw[h][1] : h \in {h \in DOMAIN s.x.live \cap DOMAIN s.y.live : s.x.raw[h] = s.y.raw[h]}}
PView(s) == <<BView(s.x), BView(s.y), s.cp, Agree(s)>>
=============================================================================

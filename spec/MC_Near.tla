------------------------------- MODULE MC_Near -------------------------------
(***************************************************************************)
(* Design model of the closest point computation. A state is a step of the *)
(* procedure the library uses on a ray and a ray, line or segment over a   *)
(* lattice: solve the two lines, clamp the second parameter, recompute and *)
(* clamp the first one, recompute the second one. Checked: the procedure   *)
(* ends in the minimum MinGap2 of the specification, and MinGap2 is not    *)
(* above the distance of any pair of sampled points of the two sets.       *)
(***************************************************************************)
EXTENDS Near
CONSTANTS K
VARIABLES pc, o2, d1, d2, kind, s, t
vars == <<pc, o2, d1, d2, kind, s, t>>
V2 == {<<RInt(x), RInt(y), RInt(z)>> : x \in -K..K, y \in -K..K, z \in 0..1}
O1 == VZero(3)
I2 == CASE kind = "ray" -> RayI [] kind = "line" -> LineI [] OTHER -> SegI
Init == /\ pc = "solve" /\ s = RZero /\ t = RZero
        /\ o2 \in V2 /\ d2 \in V2 /\ d1 \in {<<ROne, RZero, RZero>>, <<ROne, ROne, RZero>>, <<RInt(-1), RTwo, ROne>>}
        /\ kind \in {"ray", "line", "segment"} /\ d2 # VZero(3) /\ Gram(d1, d2) # RZero
Solve == /\ pc = "solve" /\ pc' = "first"
         /\ LET g == Gram(d1, d2) w == VSub(o2, O1)      \* minimise |w + s d2 - t d1|
            IN s' = ClampI(RDiv(RSub(RMul(VDot(d1, d2), VDot(d1, w)), RMul(VSqLen(d1), VDot(d2, w))), g), I2)
         /\ UNCHANGED <<o2, d1, d2, kind, t>>
First == /\ pc = "first" /\ t' = ClosestT(O1, d1, At(o2, d2, s))
         /\ pc' = IF RSgn(t') < 0 THEN "second" ELSE "done"
         /\ UNCHANGED <<o2, d1, d2, kind, s>>
Second == /\ pc = "second" /\ t' = RZero /\ s' = Best(o2, d2, I2, O1) /\ pc' = "done"
          /\ UNCHANGED <<o2, d1, d2, kind>>
Next == Solve \/ First \/ Second
Minimal == pc = "done" =>
  LET m == MinGap2(O1, d1, RayI, o2, d2, I2) IN
  /\ Gap2(O1, d1, t, o2, d2, s) = m
  /\ InI(t, RayI) /\ InI(s, I2)
  /\ \A x \in 0..4, y \in -4..4 :
       LET tt == RFrac(x, 2) ss == RFrac(y, 4) IN InI(ss, I2) => RLe(m, Gap2(O1, d1, tt, o2, d2, ss))
=============================================================================

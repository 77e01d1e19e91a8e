------------------------------ MODULE MC_Planes -------------------------------
(***************************************************************************)
(* Design model of the plane and plane intersection in exact arithmetic:   *)
(* from the first plane's anchor along the projection of the second normal *)
(* into the first plane until the second plane is met. Normals are lattice *)
(* vectors of any length (the procedure is homogeneous). Checked: the      *)
(* procedure has a result iff the planes are not parallel, and then every  *)
(* point of the result line lies in both planes.                            *)
(***************************************************************************)
EXTENDS Geo
CONSTANTS K
VARIABLES n1, n2, c1, c2, pc, dir, start, pt
vars == <<n1, n2, c1, c2, pc, dir, start, pt>>
N3 == {<<RInt(x), RInt(y), RInt(z)>> : x \in -K..K, y \in -K..K, z \in -K..K} \ {VZero(3)}
Init == /\ n1 \in N3 /\ n2 \in N3 /\ c1 \in {RZero, RInt(3)} /\ c2 \in {RZero, RInt(-2)}
        /\ pc = "anchor" /\ dir = VZero(3) /\ start = VZero(3) /\ pt = VZero(3)
Anchor == /\ pc = "anchor"
          /\ dir' = VCross(n1, n2)
          /\ start' = VScale(n1, RDiv(c1, VSqLen(n1)))       \* n1.q = c1
          /\ pc' = IF dir' = VZero(3) THEN "none" ELSE "walk"
          /\ UNCHANGED <<n1, n2, c1, c2, pt>>
Walk == /\ pc = "walk"
        /\ LET w == VSub(n2, VScale(n1, RDiv(VDot(n2, n1), VSqLen(n1))))   \* n2 projected into plane 1
               t == RDiv(RSub(c2, VDot(start, n2)), VDot(w, n2))
           IN pt' = At(start, w, t)
        /\ pc' = "done" /\ UNCHANGED <<n1, n2, c1, c2, dir, start>>
Next == Anchor \/ Walk
Right == /\ pc = "none" => Gram(n1, n2) = RZero
         /\ pc = "walk" => Gram(n1, n2) # RZero
         /\ pc = "done" => \A k \in -2..2 : LET q == At(pt, dir, RInt(k)) IN VDot(q, n1) = c1 /\ VDot(q, n2) = c2
=============================================================================

--------------------------------- MODULE C20 ---------------------------------
(* Containment of a point of the plane in a simple polygon, judged after a     *)
(* projection of the plane along an axis in which it is not degenerate (n is    *)
(* a normal of the plane). Points within the library's epsilon of the boundary  *)
(* may be reported either way, points exactly on it are contained.              *)
EXTENDS Poly2
Margin == RSq(RNum("0.004"))
PostC20(e) ==
  CASE e.op = "contains" ->
         LET k == MajorAxis(e.n)
             ws == DropAll(e.vs, k) q == Drop3(e.q, k)
             ok(r) == IF e.exact /\ OnBoundary(ws, q) THEN r = TRUE
                      ELSE RLt(Edge2(ws, q), Margin) \/ r = InPoly(ws, q)
         IN ok(e.rn) /\ ok(e.ra) /\ ok(e.rp) /\ ok(e.rg)
=============================================================================

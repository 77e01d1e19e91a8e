-------------------------------- MODULE Poly2 --------------------------------
(* Polygons in the plane, as sequences of 2d vertices.                         *)
EXTENDS Geo
Cross2(a, b)   == RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))
Turn(a, b, c)  == RSgn(Cross2(VSub(b, a), VSub(c, a)))       \* > 0: c is left of a -> b
OnSeg(p, a, b) == /\ Turn(a, b, p) = 0
                  /\ RLe(RZero, VDot(VSub(p, a), VSub(b, a)))
                  /\ RLe(RZero, VDot(VSub(p, b), VSub(a, b)))
NextI(vs, i)   == IF i = Len(vs) THEN 1 ELSE i + 1
OnBoundary(vs, p) == \E i \in 1..Len(vs) : OnSeg(p, vs[i], vs[NextI(vs, i)])
(* the edge a -> b meets the ray from p to the right; an end point level with  *)
(* p counts as being below                                                      *)
Crosses(p, a, b) ==
  LET ua == RLt(p[2], a[2]) ub == RLt(p[2], b[2]) IN
  ua # ub /\ (IF ub THEN Turn(a, b, p) > 0 ELSE Turn(a, b, p) < 0)
Crossings(vs, p) == Cardinality({i \in 1..Len(vs) : Crosses(p, vs[i], vs[NextI(vs, i)])})
InPoly(vs, p)  == OnBoundary(vs, p) \/ Crossings(vs, p) % 2 = 1
(* squared distance of p from the boundary *)
Edge2(vs, p)   == SetMin({PtSeg2(vs[i], vs[NextI(vs, i)], p) : i \in 1..Len(vs)})
(* drop component k of a 3d point *)
Drop3(v, k)    == IF k = 1 THEN <<v[2], v[3]>> ELSE IF k = 2 THEN <<v[3], v[1]>> ELSE <<v[1], v[2]>>
DropAll(vs, k) == [i \in 1..Len(vs) |-> Drop3(vs[i], k)]
(* an axis along which the plane with normal n can be projected *)
MajorAxis(n)   == CHOOSE k \in 1..3 : \A j \in 1..3 : RLe(RAbs(n[j]), RAbs(n[k]))
=============================================================================

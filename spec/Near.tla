-------------------------------- MODULE Near --------------------------------
(* Closest points of two parameterised sets o1 + t d1 and o2 + s d2, with      *)
(* t, s in intervals. [lo, hi] is written <<lo, hi>>; RInf is allowed.         *)
EXTENDS Geo

RayI == <<RZero, RInf>>
LineI == <<RNInf, RInf>>
SegI == <<RZero, ROne>>
InI(x, i) == RLe(i[1], x) /\ RLe(x, i[2])
ClampI(x, i) == RClamp(x, i[1], i[2])
Gap2(o1, d1, t, o2, d2, s) == VSqLen(VSub(At(o1, d1, t), At(o2, d2, s)))
(* best parameter on o + x d for the fixed point q *)
Best(o, d, i, q) == ClampI(ClosestT(o, d, q), i)
(* The minimum of the squared distance: it is attained at the critical point    *)
(* or on the boundary of the parameter rectangle, and there with the other      *)
(* parameter being the best one.                                                *)
Ends(i) == {x \in {i[1], i[2]} : RIsFin(x)}
CandT(o1, d1, i1, o2, d2, i2) ==
  LET g == Gram(d1, d2)
      w == VSub(o2, o1)
      crit == IF g = RZero THEN ClampI(RZero, i1)
              ELSE RDiv(RSub(RMul(VDot(w, d1), VSqLen(d2)), RMul(VDot(w, d2), VDot(d1, d2))), g)
  IN {ClampI(crit, i1)} \cup Ends(i1)
     \cup {Best(o1, d1, i1, At(o2, d2, s)) : s \in Ends(i2)}
GapAt(o1, d1, o2, d2, i2, t) == LET q == At(o1, d1, t) IN Gap2(o1, d1, t, o2, d2, Best(o2, d2, i2, q))
(* the parameter on the first set at which the minimum is attained; unique unless the sets are parallel *)
ArgMin(o1, d1, i1, o2, d2, i2) ==
  LET C == CandT(o1, d1, i1, o2, d2, i2) IN
  CHOOSE t \in C : \A x \in C : RLe(GapAt(o1, d1, o2, d2, i2, t), GapAt(o1, d1, o2, d2, i2, x))
MinGap2(o1, d1, i1, o2, d2, i2) ==
  SetMin({LET q == At(o1, d1, t) IN Gap2(o1, d1, t, o2, d2, Best(o2, d2, i2, q)) : t \in CandT(o1, d1, i1, o2, d2, i2)})
=============================================================================

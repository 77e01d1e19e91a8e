--------------------------------- MODULE C26 ---------------------------------
(* The biquadratic Bezier patch is the tensor product of the Bernstein         *)
(* polynomials; cp[i][j] is the control point of the i-th polynomial in v and  *)
(* the j-th one in u.                                                          *)
EXTENDS Vec
B(i, x) == CASE i = 1 -> RSq(RSub(ROne, x))
             [] i = 2 -> RMul(RTwo, RMul(x, RSub(ROne, x)))
             [] OTHER -> RSq(x)
Patch(cp, u, v) ==
  [k \in 1..Len(cp[1][1]) |->
     RSum([n \in 1..9 |-> LET i == ((n - 1) \div 3) + 1 j == ((n - 1) % 3) + 1
                          IN RMul(RMul(B(i, v), B(j, u)), cp[i][j][k])])]
(* the same by repeated linear interpolation *)
Casteljau(p, x) == VLerp(VLerp(p[1], p[2], x), VLerp(p[2], p[3], x), x)
PatchC(cp, u, v) == Casteljau([i \in 1..3 |-> Casteljau(cp[i], u)], v)
GridMax(cp) == RMaxAbs([n \in 1..9 |-> VMaxAbs(cp[((n - 1) \div 3) + 1][((n - 1) % 3) + 1])])
Size2(x) == RSq(RAdd(ROne, RAbs(x)))
Ulp26(p) == IF p = "d" THEN RPow2(-53) ELSE RPow2(-24)
PostC26(e) ==
  LET tol == RMul(RMul(RInt(24), Ulp26(e.p)), RMul(GridMax(e.cp), RMul(Size2(e.u), Size2(e.v))))
      w == Patch(e.cp, e.u, e.v)
  IN /\ Len(e.r) = Len(w)
     /\ VNear(e.r, w, tol)
     \* the corners of the patch are the corners of the grid
     /\ (e.u \in {RZero, ROne} /\ e.v \in {RZero, ROne}) =>
          LET c == e.cp[IF e.v = RZero THEN 1 ELSE 3][IF e.u = RZero THEN 1 ELSE 3] IN VNear(e.r, c, tol)
     \* inside of the parameter square the patch stays within the bounds of the grid
     /\ (RLe(RZero, e.u) /\ RLe(e.u, ROne) /\ RLe(RZero, e.v) /\ RLe(e.v, ROne)) =>
          \A k \in 1..Len(e.r) :
            LET S == {e.cp[i][j][k] : i \in 1..3, j \in 1..3}
            IN RLe(RSub(SetMin(S), tol), e.r[k]) /\ RLe(e.r[k], RAdd(SetMax(S), tol))
=============================================================================

--------------------------------- MODULE C03 ---------------------------------
(* Metric operations on vectors.                                              *)
EXTENDS Vec

U(p) == IF p = "d" THEN RPow2(-48) ELSE IF p = "f" THEN RPow2(-19) ELSE RZero
Eps(p, s) == RMul(U(p), s)
Len2(a) == VSqLen(a)
Root(x) == RSqrt(x, 90)
Abs1(a) == RSum(VAbs(a))

IsRoot(r, x, p) == /\ RLe(RZero, r)
                   /\ Near(r, Root(x), Eps(p, Root(x)))
Fuzzy(r, x, eps, tol) ==          \* r is the answer of "x <= eps"
  IF tol # RZero /\ RLe(RAbs(RSub(x, eps)), tol) THEN TRUE ELSE r <=> RLe(x, eps)

(* squared area of the parallelogram of three points (Lagrange's identity)    *)
Area2(a, b, c) ==
  LET ac == VSub(a, c) ba == VSub(b, a) j == VDot(ac, ba)
  IN RSub(RMul(Len2(ac), Len2(ba)), RSq(j))
AreaTol(e) ==
  LET ac == VSub(e.a, e.c) ba == VSub(e.b, e.a)
      u == U(e.p)
      \* rounding of the two differences and of the products
  IN RMul(u, RMul(RInt(16), RMul(Len2(ac), Len2(ba))))
Cos2(a, b) == RDiv(RSq(VDot(a, b)), RMul(Len2(a), Len2(b)))
CosAbs(a, b) == Root(Cos2(a, b))

PostC03(e) ==
  CASE e.op = "dot" -> /\ Near(e.r, VDot(e.a, e.b), Eps(e.p, RDotAbs(e.a, e.b))) /\ e.r2 = e.r
    [] e.op = "cross" ->
         LET x == VCross(e.a, e.b)
             s == <<RAdd(RAbs(RMul(e.a[2], e.b[3])), RAbs(RMul(e.a[3], e.b[2]))),
                    RAdd(RAbs(RMul(e.a[3], e.b[1])), RAbs(RMul(e.a[1], e.b[3]))),
                    RAdd(RAbs(RMul(e.a[1], e.b[2])), RAbs(RMul(e.a[2], e.b[1])))>>
         IN \A i \in 1..3 : Near(e.r[i], x[i], Eps(e.p, s[i]))
    [] e.op = "sqlen" -> Near(e.r, Len2(e.a), Eps(e.p, Len2(e.a)))
    [] e.op = "len" -> IsRoot(e.r, Len2(e.a), e.p)
    [] e.op = "norm" -> LET l == Root(Len2(e.a)) IN
                        \A i \in 1..Len(e.a) : Near(e.r[i], RDiv(e.a[i], l), Eps(e.p, ROne))
    [] e.op = "dist" -> LET d == VSub(e.a, e.b) IN
                        /\ RLe(RZero, e.r)
                        /\ Near(e.r, Root(Len2(d)), Eps(e.p, Root(Len2(d))))
    [] e.op = "sqdist" -> LET d == Len2(VSub(e.a, e.b)) IN Near(e.r, d, Eps(e.p, d))
    [] e.op = "hom" -> e.r = Append(e.a, ROne)
    [] e.op = "cart" -> LET n == Len(e.a) - 1 IN
                        /\ Len(e.r) = n
                        /\ \A i \in 1..n : LET x == RDiv(e.a[i], e.a[n + 1]) IN Near(e.r[i], x, Eps(e.p, RAbs(x)))
    [] e.op = "homcart" -> \A i \in 1..Len(e.a) : e.r[i] = e.a[i]
    [] e.op = "isunit" -> Fuzzy(e.r, RAbs(RSub(Root(Len2(e.a)), ROne)), e.eps, Eps(e.p, RAdd(RTwo, Root(Len2(e.a)))))
    [] e.op = "iszero" -> e.r <=> \A i \in 1..Len(e.a) : RLe(RAbs(e.a[i]), e.eps)
    [] e.op = "isnan" -> e.r <=> AnyNaN(e.a)
    [] e.op = "isint" -> LET d(x) == RMin(RSub(x, RFloor(x)), RSub(RCeil(x), x)) IN
         \/ e.r <=> \A i \in 1..Len(e.a) : RLe(d(e.a[i]), e.eps)
    [] e.op = "colinear" -> Fuzzy(e.r, RAbs(Area2(e.a, e.b, e.c)), e.eps, AreaTol(e))
    [] e.op = "parallel" -> Fuzzy(e.r, RAbs(RSub(CosAbs(e.a, e.b), ROne)), e.eps, Eps(e.p, RInt(4)))
    (* for three points of one line: on the closed segment between the others *)
    [] e.op = "between" -> e.r <=> RLe(VDot(VSub(e.b, e.a), VSub(e.c, e.a)), RZero)
=============================================================================

--------------------------------- MODULE C08 ---------------------------------
(***************************************************************************)
(* Real roots of quadratic, cubic and quartic equations. An event carries  *)
(* the coefficients, the epsilon, the factors the polynomial was built     *)
(* from (<<x>>: real root, <<x, y>>: conjugate pair x +- iy), and the      *)
(* result: the count n and the values.                                     *)
(***************************************************************************)
EXTENDS Vec

U(p) == IF p = "d" THEN RPow2(-46) ELSE RPow2(-17)

PMul(f, g) == [k \in 1..(Len(f) + Len(g) - 1) |->
                 RSum([i \in 1..Len(f) |-> IF k - i + 1 \in 1..Len(g) THEN RMul(f[i], g[k - i + 1]) ELSE RZero])]
Factor(z) == IF Len(z) = 1 THEN <<ROne, RNeg(z[1])>>
             ELSE <<ROne, RMul(RInt(-2), z[1]), RAdd(RSq(z[1]), RSq(z[2]))>>
RECURSIVE Product(_, _)
Product(zs, i) == IF i > Len(zs) THEN <<ROne>> ELSE PMul(Factor(zs[i]), Product(zs, i + 1))
(* the recorded coefficients are those of the recorded factors, up to rounding *)
Coherent(e) ==
  LET p == VScale(Product(e.z, 1), e.c[1]) m == RMul(RPow2(12), RMaxAbs(e.c))
  IN VNear(e.c, p, RMul(U(e.p), m))

Reals(zs) == {zs[i][1] : i \in {j \in 1..Len(zs) : Len(zs[j]) = 1 \/ zs[j][2] = RZero}}
Found(e) == {e.x[i] : i \in 1..e.n}
Match(S, T, d) == /\ \A s \in S : \E t \in T : Near(s, t, d)
                  /\ \A t \in T : \E s \in S : Near(s, t, d)
RestNaN(e) == /\ \A i \in 1..e.n : RIsFin(e.x[i])
              /\ \A i \in (e.n + 1)..Len(e.x) : RIsNaN(e.x[i])

(* quadratic: p = b/2a, q = c/a, D = p^2 - q decides the count *)
Quadratic(e) ==
  LET p == RDiv(e.c[2], RMul(RTwo, e.c[1]))
      q == RDiv(e.c[3], e.c[1])
      D == RSub(RSq(p), q)
      tolD == RMul(U(e.p), RAdd(RSq(p), RAbs(q)))
      s == RSqrt(RAbs(D), 90)
      tolR == RAdd(RMul(U(e.p), RAdd(RAbs(p), s)), RDiv(tolD, s))
      near == RLe(RAbs(RSub(RAbs(D), e.eps)), tolD)
  IN /\ e.n \in 0..2
     /\ near \/ e.n = (IF RLe(RAbs(D), e.eps) THEN 1 ELSE IF RLt(D, RZero) THEN 0 ELSE 2)
     /\ RestNaN(e)
     /\ e.n = 1 => Near(e.x[1], RNeg(p), RMul(U(e.p), RAbs(p)))
     /\ e.n = 2 => Match(Found(e), {RSub(s, p), RSub(RNeg(s), p)}, tolR)

PostC08(e) ==
  CASE e.op = "quadratic" -> Quadratic(e)
    (* roots apart: exactly the real roots are returned, each once *)
    [] e.op = "apart" -> /\ Coherent(e)
                         /\ e.n = Cardinality(Reals(e.z))
                         /\ RestNaN(e)
                         /\ Match(Found(e), Reals(e.z), e.delta)
    (* multiple roots on a lattice: exactly the real roots as a set *)
    [] e.op = "multiple" -> /\ Coherent(e)
                            /\ RestNaN(e)
                            /\ e.n >= Cardinality(Reals(e.z))
                            /\ Match(Found(e), Reals(e.z), e.delta)
    (* quadratics and cubics return a multiple root once *)
    [] e.op = "distinct" -> /\ Coherent(e)
                            /\ RestNaN(e)
                            /\ e.n = Cardinality(Reals(e.z))
                            /\ Match(Found(e), Reals(e.z), e.delta)
=============================================================================

--------------------------------- MODULE C06 ---------------------------------
(* Selection, clamping, blending and tolerance predicates on scalars.         *)
EXTENDS Vec

U(p) == CASE p = "d" -> RPow2(-48) [] p = "f" -> RPow2(-19) [] OTHER -> RZero
Tiny(p) == IF p = "d" THEN RPow2(-1060) ELSE RPow2(-140)
Elems(s) == {s[i] : i \in 1..Len(s)}
IsMin(r, s) == r \in Elems(s) /\ \A x \in Elems(s) : RLe(r, x)
IsMax(r, s) == r \in Elems(s) /\ \A x \in Elems(s) : RLe(x, r)
IsAbsMin(r, s) == r \in Elems(s) /\ \A x \in Elems(s) : RLe(RAbs(r), RAbs(x))
IsAbsMax(r, s) == r \in Elems(s) /\ \A x \in Elems(s) : RLe(RAbs(x), RAbs(r))
Nums(s) == {x \in Elems(s) : ~RIsNaN(x)}
IsSafe(r, s, F(_, _)) == IF Nums(s) = {} THEN RIsNaN(r) ELSE r \in Nums(s) /\ \A x \in Nums(s) : F(r, x)
Clamp(x, lo, hi) == IF RLt(x, lo) THEN lo ELSE IF RLt(hi, x) THEN hi ELSE x
SmoothT(e0, e1, x) == Clamp(RDiv(RSub(x, e0), RSub(e1, e0)), RZero, ROne)
Smooth(e0, e1, x) == LET t == SmoothT(e0, e1, x) IN RMul(RSq(t), RSub(RInt(3), RMul(RTwo, t)))
SmoothTol(e0, e1, x, p) == RMul(U(p), RAdd(ROne, RDiv(RSum(<<RAbs(e0), RAbs(e1), RAbs(x)>>), RAbs(RSub(e1, e0)))))
IsMix(r, x, y, a, p) == Near(r, RAdd(RMul(RSub(ROne, a), x), RMul(a, y)),
                             RAdd(Tiny(p), RMul(U(p), RAdd(RMul(RAdd(ROne, RAbs(a)), RAbs(x)), RAbs(RMul(a, y))))))
Step(e, x) == IF RLt(x, e) THEN RZero ELSE ROne
FuzzyLe(r, x, eps, tol) == (tol # RZero /\ RLe(RAbs(RSub(x, eps)), tol)) \/ (r <=> RLe(x, eps))

(* neighbouring floating point number: precision bits b, least exponent emin  *)
NextGap(x, b, emin) ==
  IF x = RZero THEN RPow2(emin)
  ELSE LET k == RLog2(x)
           low == RSgn(x) < 0 /\ RAbs(x) = RPow2(k)   \* just above a negative power of two the spacing halves
           g == k - (b - 1) - (IF low THEN 1 ELSE 0)
       IN RPow2(IF g < emin THEN emin ELSE g)
Bits(p) == IF p = "d" THEN 53 ELSE 24
EMin(p) == IF p = "d" THEN -1074 ELSE -149

PostC06(e) ==
  CASE e.op = "min" -> IsMin(e.r, e.a)
    [] e.op = "max" -> IsMax(e.r, e.a)
    [] e.op = "absmin" -> IsAbsMin(e.r, e.a)
    [] e.op = "absmax" -> IsAbsMax(e.r, e.a)
    [] e.op = "safemin" -> IsSafe(e.r, e.a, RLe)
    [] e.op = "safemax" -> IsSafe(e.r, e.a, RGe)
    [] e.op = "absdiff" -> Near(e.r, RAbs(RSub(e.a, e.b)), RMul(U(e.p), RAbs(RSub(e.a, e.b))))   \* operands of one sign
    [] e.op = "clamp" -> e.r = Clamp(e.a, e.lo, e.hi)
    [] e.op = "clamp01" -> e.r = Clamp(e.a, RZero, ROne)
    [] e.op = "abs" -> e.r = RAbs(e.a)
    [] e.op = "sign" -> e.r = RInt(RSgn(e.a))
    [] e.op = "step" -> e.r = Step(e.b, e.a)
    [] e.op = "smooth" -> Near(e.r, Smooth(e.lo, e.hi, e.a), SmoothTol(e.lo, e.hi, e.a, e.p)) /\ RLe(RZero, e.r) /\ RLe(e.r, ROne)
    [] e.op = "mix" -> IsMix(e.r, e.a, e.b, e.f, e.p)
    [] e.op = "class" -> (e.nan <=> RIsNaN(e.a)) /\ (e.inf <=> RIsInf(e.a))
    [] e.op = "isequal" -> IF e.eps = RZero THEN e.r <=> e.a = e.b ELSE FuzzyLe(e.r, RAbs(RSub(e.a, e.b)), e.eps, RMul(U(e.p), RAdd(RAbs(e.a), RAbs(e.b))))
    [] e.op = "iszero" -> e.r <=> RLe(RAbs(e.a), e.eps)
    [] e.op = "contains" -> e.r <=> ((RLe(e.s, e.a) /\ RLe(e.a, e.t)) \/ (RLe(e.t, e.a) /\ RLe(e.a, e.s)))
    [] e.op = "succ" -> e.r = (e.a + e.s) % e.n
    [] e.op = "pred" -> e.r = (e.a + e.n * e.s - e.s) % e.n /\ e.r \in 0..(e.n - 1)
    [] e.op = "next" -> IF e.a = RInf THEN e.r = RInf ELSE e.r = RAdd(e.a, NextGap(e.a, Bits(e.p), EMin(e.p)))
    (* vectors: every component by itself *)
    [] e.op = "vec" ->
         \A i \in 1..Len(e.a) :
           LET x == e.a[i] y == e.b[i] z == e.c[i] IN
           /\ IsMin(e.min[i], <<x, y>>) /\ IsMax(e.max[i], <<x, y>>)
           /\ IsMin(e.min3[i], <<x, y, z>>) /\ IsMax(e.max3[i], <<x, y, z>>)
           /\ IsAbsMin(e.amin[i], <<x, y>>) /\ IsAbsMax(e.amax[i], <<x, y>>)
           /\ IsAbsMin(e.amin3[i], <<x, y, z>>) /\ IsAbsMax(e.amax3[i], <<x, y, z>>)
           /\ e.clamp[i] = Clamp(z, RMin(x, y), RMax(x, y))
           /\ e.abs[i] = RAbs(x) /\ e.sign[i] = RInt(RSgn(x)) /\ e.step[i] = Step(y, x)
           /\ ("mix" \in DOMAIN e => IsMix(e.mix[i], x, y, e.f[i], e.p))
           /\ ("smooth" \in DOMAIN e => Near(e.smooth[i], Smooth(e.lo[i], e.hi[i], x), SmoothTol(e.lo[i], e.hi[i], x, e.p)))
=============================================================================

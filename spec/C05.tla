--------------------------------- MODULE C05 ---------------------------------
(* Rounding, snapping, remainders and error correction.                       *)
EXTENDS Vec

U(p) == IF p = "d" THEN RPow2(-50) ELSE RPow2(-21)
IsPow2(g) == LET k == RLog2(g) IN RAbs(g) = RPow2(k)

RoundHalf(x) == IF RSgn(x) < 0 THEN RNeg(RFloor(RAdd(RNeg(x), RHalf))) ELSE RFloor(RAdd(x, RHalf))  \* away from zero
Away(x)      == IF RSgn(x) < 0 THEN RFloor(x) ELSE RCeil(x)

(* non finite values are their own rounding *)
Is(r, x, f) == r = (IF RIsFin(x) THEN f ELSE x)

(* candidates for the multiple of the grid: with a grid that is a power of    *)
(* two the quotient is exact, otherwise a quotient within rounding of a       *)
(* threshold may fall on either side                                          *)
Cands(F(_), x, g, p) ==
  LET q == RDiv(x, g) d == RMul(U(p), RAdd(RAbs(q), ROne))
  IN IF IsPow2(g) THEN {F(q)} ELSE {F(q), F(RAdd(q, d)), F(RSub(q, d))}
IsSnap(F(_), r, x, g, p) ==
  \E k \in Cands(F, x, g, p) : LET m == RMul(g, k) IN Near(r, m, IF IsPow2(g) THEN RZero ELSE RMul(U(p), RAbs(m)))

IsMod(r, x, y, p) ==
  LET q == RDiv(x, y) IN
  \E k \in {RTrunc(q), RTrunc(RAdd(q, RMul(U(p), RAbs(q)))), RTrunc(RSub(q, RMul(U(p), RAbs(q))))} :
     Near(r, RSub(x, RMul(y, k)), RMul(U(p), RAdd(RAbs(x), RAbs(y))))

(* correct: the nearest integer if it is closer than epsilon, else the value  *)
IsCorrect0(r, x, eps) ==
  LET n == RoundHalf(x) d == RAbs(RSub(x, n)) IN
  IF RLt(d, eps) THEN r = n ELSE r = x
(* with decimals: either the value or a multiple of 2^-decimals next to it    *)
IsCorrect(r, x, dec, p) == r = x \/ Near(r, RDiv(RoundHalf(RMul(x, RPow2(dec))), RPow2(dec)), RZero)

PostC05(e) ==
  CASE e.op = "trunc" -> Is(e.r, e.a, RTrunc(e.a))
    [] e.op = "floor" -> Is(e.r, e.a, RFloor(e.a))
    [] e.op = "ceil" -> Is(e.r, e.a, RCeil(e.a))
    [] e.op = "round" -> Is(e.r, e.a, RoundHalf(e.a))
    [] e.op = "roundup" -> Is(e.r, e.a, Away(e.a))
    [] e.op = "rounddown" -> Is(e.r, e.a, RTrunc(e.a))
    [] e.op = "fract" -> e.r = RSub(e.a, RTrunc(e.a))
    [] e.op = "mod" -> IsMod(e.r, e.a, e.g, e.p)
    [] e.op = "snap" -> IsSnap(RoundHalf, e.r, e.a, e.g, e.p)
    [] e.op = "snapup" -> IsSnap(Away, e.r, e.a, e.g, e.p)
    [] e.op = "snapdown" -> IsSnap(RTrunc, e.r, e.a, e.g, e.p)
    [] e.op = "correct" -> IF e.dec = 0 THEN IsCorrect0(e.r, e.a, e.eps) ELSE IsCorrect(e.r, e.a, e.dec, e.p)
    (* vectors: every component by itself *)
    [] e.op = "vec" ->
         LET n == Len(e.a) IN
         /\ \A i \in 1..n : Is(e.trunc[i], e.a[i], RTrunc(e.a[i])) /\ Is(e.floor[i], e.a[i], RFloor(e.a[i]))
                         /\ Is(e.ceil[i], e.a[i], RCeil(e.a[i])) /\ Is(e.round[i], e.a[i], RoundHalf(e.a[i]))
                         /\ e.fract[i] = RSub(e.a[i], RTrunc(e.a[i]))
                         /\ IsMod(e.mod[i], e.a[i], e.g[i], e.p)
                         /\ IsSnap(RoundHalf, e.snap[i], e.a[i], e.g[i], e.p)
                         /\ IsSnap(Away, e.up[i], e.a[i], e.g[i], e.p)
                         /\ IsSnap(RTrunc, e.down[i], e.a[i], e.g[i], e.p)
                         /\ IsCorrect0(e.corr[i], e.a[i], e.eps) /\ IsCorrect0(e.corrd[i], e.a[i], e.deps)
         /\ e.corrx = e.each /\ \A i \in 1..n : IsCorrect(e.corrx[i], e.a[i], e.dec, e.p)
         /\ Len(e.trunc) = n /\ Len(e.round) = n
=============================================================================

--------------------------------- MODULE Geo ---------------------------------
(* Points, lines, rays and segments with exact rational coordinates. Lines    *)
(* and rays are given by a point and a direction of any length.               *)
EXTENDS Vec

RClamp(x, lo, hi) == RMax(lo, RMin(hi, x))
At(o, d, t)      == VAdd(o, VScale(d, t))
(* parameter of the point of the line o + t d that is closest to q *)
ClosestT(o, d, q) == LET dd == VSqLen(d) IN IF dd = RZero THEN RZero ELSE RDiv(VDot(VSub(q, o), d), dd)
PtLine2(o, d, q) == VSqLen(VSub(q, At(o, d, ClosestT(o, d, q))))
PtRay2(o, d, q)  == VSqLen(VSub(q, At(o, d, RMax(RZero, ClosestT(o, d, q)))))
PtSeg2(a, b, q)  == LET d == VSub(b, a) IN VSqLen(VSub(q, At(a, d, RClamp(ClosestT(a, d, q), RZero, ROne))))
(* squared area of the parallelogram, zero iff parallel; any dimension *)
Gram(a, b) == RSub(RMul(VSqLen(a), VSqLen(b)), RSq(VDot(a, b)))
(* minimum of |x|^2 over the box of parameters: see C18 *)

(* sqrt(x2) lies on the given side of m, decided with tolerance t >= 0: the   *)
(* recorded answer "within" must be TRUE below m - t and FALSE above m + t    *)
WithinOk(within, x2, m, t) ==
  /\ (RLt(t, m) /\ RLt(x2, RSq(RSub(m, t)))) => within
  /\ RLt(RSq(RAdd(m, t)), x2) => ~within
=============================================================================

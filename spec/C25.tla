--------------------------------- MODULE C25 ---------------------------------
(* same: the value of an expression in a constant expression (ce) and at run   *)
(* time (rt). near: a constexpr variant and its run-time counterpart. sqrt: the *)
(* iterative square root on any number.                                         *)
EXTENDS Vec
Ulps(p) == IF p = "d" THEN RPow2(-50) ELSE RPow2(-21)
SqrtOk(p, r, a) ==
  IF RIsNaN(a) THEN RIsNaN(r)
  ELSE IF a = RInf THEN r = RInf
  ELSE IF RLt(a, RZero) THEN RIsNaN(r)
  ELSE IF a = RZero THEN r = RZero
  ELSE LET s == RSqrt(a, 90) IN Near(r, s, RMul(s, Ulps(p)))
Root(a) == RSqrt(a, 100)
Wide(p, s) == RMul(s, RMul(RInt(64), Ulps(p)))
Lin(m) == RAdd(ROne, RMaxAbs([i \in 1..(Len(m) - 1) |-> VMaxAbs(SubSeq(m[i], 1, Len(m) - 1))]))
All(m) == RAdd(ROne, MMaxAbs(m))
(* both variants answer "x is at most eps", up to rounding t of x *)
Both(e, x, t) == RLe(RAbs(RSub(x, e.eps)), t) \/ (e.r = RLe(x, e.eps) /\ e.r2 = e.r)
DirOk(p, rd, n, m) == VNear(VScale(rd, Root(VSqLen(n))), n, Wide(p, Lin(m)))
PostC25(e) ==
  CASE e.op = "same" -> e.ce = e.rt
    [] e.op = "near" ->
         /\ Len(e.ce) = Len(e.rt)
         /\ LET sc == RMaxAbs(e.ce) IN \A i \in 1..Len(e.ce) : Near(e.ce[i], e.rt[i], RMul(Ulps(e.p), RMul(RInt(16), RAdd(sc, RPow2(-40)))))
    [] e.op = "sqrt" -> SqrtOk(e.p, e.r, e.a) /\ SqrtOk(e.p, e.r2, e.a)
    [] e.op = "length" ->
         LET s == RSqrt(VSqLen(e.a), 90) IN
         /\ Near(e.r, s, RMul(s, RMul(RInt(8), Ulps(e.p)))) /\ Near(e.r2, s, RMul(s, RMul(RInt(8), Ulps(e.p))))
         /\ VNear(VScale(e.n, s), e.a, RMul(s, RMul(RInt(8), Ulps(e.p))))
         /\ VNear(VScale(e.n2, s), e.a, RMul(s, RMul(RInt(8), Ulps(e.p))))
    [] e.op = "dist" ->
         LET s == Root(VSqLen(VSub(e.a, e.b))) t == RMul(s, RMul(RInt(8), Ulps(e.p)))
         IN \A x \in {e.r, e.r2, e.s, e.s2} : Near(x, s, t)
    [] e.op = "isunit" -> LET s == Root(VSqLen(e.a)) IN Both(e, RAbs(RSub(s, ROne)), Wide(e.p, RAdd(ROne, s)))
    [] e.op = "parallel" ->
         LET c == RDiv(RAbs(VDot(e.a, e.b)), Root(RMul(VSqLen(e.a), VSqLen(e.b)))) IN Both(e, RAbs(RSub(ROne, c)), Wide(e.p, RInt(2)))
    [] e.op = "between" ->
         LET w == RLe(VDot(VSub(e.a, e.q), VSub(e.b, e.q)), RZero) IN e.r = w /\ e.r2 = w
    [] e.op = "xf" ->
         LET n == MDir(e.m, e.d) q == MPoint(e.m, e.o)
             t == Wide(e.p, RMul(All(e.m), RAdd(ROne, VMaxAbs(e.o))))
         IN /\ DirOk(e.p, e.rd, n, e.m) /\ DirOk(e.p, e.rd2, n, e.m)
            /\ VNear(e.rp, q, t) /\ VNear(e.rp2, q, t)
    [] e.op = "xplane" ->
         LET n == MDir(e.m, e.n) l == Root(VSqLen(n)) IN
         /\ DirOk(e.p, e.rd, n, e.m) /\ DirOk(e.p, e.rd2, n, e.m)
         /\ Near(e.h, e.h2, Wide(e.p, RMul(All(e.m), RMul(RInt(8), RAdd(ROne, RAbs(e.dist))))))
=============================================================================

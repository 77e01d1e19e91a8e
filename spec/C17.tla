--------------------------------- MODULE C17 ---------------------------------
(* Quaternions as rotations.                                                  *)
EXTENDS Rot

U(e, k) == TolOf(e.p, RInt(k))
Lax(e) == IF e.p = "d" THEN RPow2(-21) ELSE RPow2(-8)
IsQ(r, s, t) == Near(r.r, s.r, t) /\ VNear(r.v, s.v, t)
Scl(q) == RAdd(ROne, RMax(RAbs(q.r), VMaxAbs(q.v)))
Len1(x) == RAdd(RPow2(-60), VMaxAbs(x))          \* the error is relative to the vector

PostC17(e) ==
  CASE e.op = "axisangle" ->           \* half the angle in the components, and the rotation of x
         LET c == CosR(RMul(RHalf, e.a)) s == SinR(RMul(RHalf, e.a)) IN
         /\ IsQ(e.q, [r |-> c, v |-> VScale(e.k, s)], U(e, 4))
         /\ Near(QNorm2(e.q), ROne, U(e, 8))
         /\ VNear(e.y, Rotate(e.k, e.a, e.x), RMul(U(e, 16), Len1(e.x))) /\ Near(VSqLen(e.y), VSqLen(e.x), RMul(U(e, 32), RSq(Len1(e.x))))
         /\ MNear(MLin(e.m), MTrans([j \in 1..3 |-> Rotate(e.k, e.a, VAxis(3, j))]), U(e, 16))
    [] e.op = "report" ->              \* angle() and axis() describe the same quaternion again
         LET h == RMul(RHalf, e.angle) IN
         /\ Near(CosR(h), e.q.r, U(e, 8)) /\ RLe(RZero, e.angle) /\ RLe(e.angle, RAdd(RTwoPi, U(e, 8)))
         /\ IF RLt(VMaxAbs(e.q.v), RNum("0.0009")) THEN e.axis = e.q.v
            ELSE RLt(RNum("0.0011"), VMaxAbs(e.q.v)) =>
                 VNear(VScale(e.axis, SinR(h)), e.q.v, RDiv(U(e, 16), VMaxAbs(e.q.v)))
    [] e.op = "fromto" ->
         /\ Near(QNorm2(e.q), ROne, U(e, 8))
         (* directions that are almost parallel or opposite, up to the square root of the precision *)
         /\ LET s == RSqrt(VSqLen(VCross(e.f, e.t)), 60) w == IF e.p = "d" THEN RPow2(-24) ELSE RPow2(-9)
                t == IF RLt(s, w) THEN Lax(e) ELSE RMin(Lax(e), RAdd(U(e, 16), RDiv(IF e.p = "d" THEN RPow2(-49) ELSE RPow2(-20), s))) IN
            VNear(QRot(e.q, e.f), e.t, t) /\ VNear(e.y, e.t, t)
         (* the shortest rotation: directions perpendicular to both stay, if there is just one *)
         /\ LET n == VCross(e.f, e.t) IN RLt(RNum("0.01"), VSqLen(n)) => VNear(QRot(e.q, n), n, RMul(RInt(16), Lax(e)))
    [] e.op = "product" ->
         /\ IsQ(e.r, QMul(e.a, e.b), RMul(U(e, 8), RMul(Scl(e.a), Scl(e.b))))
         (* unit factors: rotating by the product is rotating twice *)
         /\ e.unit => VNear(e.y, QRot(e.a, QRot(e.b, e.x)), RMul(U(e, 32), Len1(e.x))) /\ VNear(e.y2, e.y, RMul(U(e, 32), Len1(e.x)))
    [] e.op = "conjugate" -> /\ e.r = QConj(e.q)
                             /\ VNear(e.back, e.x, RMul(U(e, 32), Len1(e.x)))
    [] e.op = "act" -> VNear(e.y, QRot(e.q, e.x), RMul(RMul(U(e, 16), RSq(Scl(e.q))), Len1(e.x)))
    [] e.op = "make" -> /\ e.q = [r |-> e.s, v |-> e.v] /\ e.zero = [r |-> RZero, v |-> VZero(3)]
                        /\ IsQ(e.conv, e.q, TolOf("f", Scl(e.q))) /\ e.pos = e.q
                        (* negation is that of the real component; a factor scales it, on either side *)
                        /\ e.neg = [r |-> RNeg(e.s), v |-> e.v]
                        /\ e.mul.r = RRnd(RMul(e.s, e.f), IF e.p = "d" THEN 53 ELSE 24) /\ e.lmul = e.mul
    [] e.op = "equal" ->               \* equal vector parts and scalar parts up to the sign
         LET same == e.a.v = e.b.v /\ (e.a.r = e.b.r \/ e.a.r = RNeg(e.b.r))
             x == VMaxAbs(VSub(e.a.v, e.b.v)) y == RMin(RAbs(RSub(e.a.r, e.b.r)), RAbs(RAdd(e.a.r, e.b.r)))
             t == RMul(U(e, 4), RMul(Scl(e.a), Scl(e.b))) IN
         /\ e.eq = same /\ e.ne = ~same
         /\ ((Near(x, e.eps, t) \/ Near(y, e.eps, t)) /\ e.eps # RZero /\ ~SimpleV(e.p, e.a.v \o e.b.v \o <<e.a.r, e.b.r>>))
            \/ e.iseq = (RLe(x, e.eps) /\ RLe(y, e.eps))
(* Histories: a rotation is built up by products; the state is the triple of  *)
(* images of the axes, moved by exact rotations.                              *)
SpinInit == << VAxis(3, 1), VAxis(3, 2), VAxis(3, 3) >>
SpinNext(st, e) == CASE e.op = "spin" -> [i \in 1..3 |-> LET y == Rotate(e.k, e.a, st[i]) IN [j \in 1..3 |-> RRnd(y[j], 90)]]
                     [] e.op = "inverse" -> MTrans(st)       \* images under the inverse rotation
                     [] e.op = "identity" -> SpinInit
PostSpin(st, e) == LET s == SpinNext(st, e) IN
                   /\ \A i \in 1..3 : VNear(e.img[i], s[i], TolOf(e.p, RInt(128)))
                   /\ Near(QNorm2(e.q), ROne, TolOf(e.p, RInt(64)))
=============================================================================

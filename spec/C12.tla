--------------------------------- MODULE C12 ---------------------------------
(* Lines, rays and segments as a point and a unit direction.                  *)
EXTENDS Geo

Scl(vs) == RAdd(ROne, RMaxAbs([i \in 1..Len(vs) |-> VMaxAbs(vs[i])]))
T8(e, vs) == TolOf(e.p, RMul(RInt(8), Scl(vs)))
StatusEps(p) == RRnd(RNum("0.0001"), IF p = "f" THEN 24 ELSE 53)
FirstPos(d) == \E i \in 1..Len(d) : RSgn(d[i]) > 0 /\ \A j \in 1..(i - 1) : d[j] = RZero
IsZeroV(d) == \A i \in 1..Len(d) : d[i] = RZero
(* the line through q with direction d, as the point closest to the origin *)
Foot(q, d) == VSub(q, VScale(d, RDiv(VDot(q, d), VSqLen(d))))

PostC12(e) ==
  CASE e.op = "proj" ->
         LET w == VDot(VSub(e.q, e.o), e.d) IN
         /\ VNear(e.at, At(e.o, e.d, e.t), T8(e, <<e.o, <<e.t>>>>))
         /\ Near(e.dist, w, T8(e, <<e.o, e.q>>))
         /\ VNear(e.proj, At(e.o, e.d, w), T8(e, <<e.o, e.q>>))
    [] e.op = "canon" ->
         /\ VNear(e.rp, Foot(e.o, e.d), T8(e, <<e.o>>))
         /\ e.rd = (IF FirstPos(e.d) THEN e.d ELSE VNeg(e.d))
         /\ e.rd2 = e.rd                                     \* described by another point and -d
         /\ VNear(e.rp2, e.rp, T8(e, <<e.o, e.o2>>))
    [] e.op = "lineeq" ->                                    \* axis parallel, small integers: exact
         LET same == Foot(e.o, e.d) = Foot(e.o2, e.d2) /\ (e.d = e.d2 \/ e.d = VNeg(e.d2)) IN
         e.eq = same /\ e.ne = ~same
    [] e.op = "rayeq" ->
         LET same == e.o = e.o2 /\ e.d = e.d2 IN e.eq = same /\ e.ne = ~same
    [] e.op = "eqeps" ->
         LET x == RMaxAbs(VSub(e.o, e.o2) \o VSub(e.d, e.d2)) IN
         (Near(x, e.eps, T8(e, <<e.o, e.o2>>)) /\ e.eps # RZero /\ ~SimpleV(e.p, e.o \o e.o2 \o e.d \o e.d2)) \/ e.r = RLe(x, e.eps)
    [] e.op = "status" ->
         LET w == VDot(VSub(e.q, e.o), e.d) t == T8(e, <<e.o, e.q>>) s == StatusEps(e.p) IN
         \/ Near(RAbs(w), s, t) /\ ~(AxisV(e.d) /\ IsZeroV(e.o) /\ e.q = VScale(e.d, w))     \* no rounding in the latter case
         \/ e.r = (IF RLt(s, w) THEN "above" ELSE IF RLt(w, RNeg(s)) THEN "below" ELSE "inside")
    [] e.op = "transform" ->
         LET n == MDir(e.m, e.d)
             l == RSqrt(VSqLen(n), 90)
             s == RMul(RAdd(ROne, MMaxAbs(e.m)), RInt(16))
             sl == RMul(RAdd(ROne, RMaxAbs([i \in 1..Len(n) |-> VMaxAbs(SubSeq(e.m[i], 1, Len(n)))])), RInt(16))    \* without the translation
         IN /\ VNear(e.rp, MPoint(e.m, e.o), TolOf(e.p, RMul(s, Scl(<<e.o>>))))
            /\ VNear(VScale(e.rd, l), n, TolOf(e.p, sl))
            /\ Near(VSqLen(e.rd), ROne, TolOf(e.p, RInt(8)))
    [] e.op = "ctor" -> /\ IsZeroV(e.zp) /\ IsZeroV(e.zd)
                        /\ e.cp = e.o /\ e.cd = e.d /\ e.gp = e.o /\ e.gd = e.d
=============================================================================

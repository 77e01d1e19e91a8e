--------------------------------- MODULE C13 ---------------------------------
(* A plane is a unit normal n and a distance d: the points q with q.n = d.    *)
EXTENDS Geo

Scl(vs) == RAdd(ROne, RMaxAbs([i \in 1..Len(vs) |-> VMaxAbs(vs[i])]))
T8(e, vs) == TolOf(e.p, RMul(RInt(8), Scl(vs)))
Height(q, n, d) == RSub(VDot(q, n), d)
DefEps(p) == RRnd(RNum("1e-4"), IF p = "f" THEN 24 ELSE 53)
AlmostZero == RNum("1e-3")
UnitV(n, p) == Near(VSqLen(n), ROne, TolOf(p, RInt(8)))
Status(w, eps) == IF RLt(eps, w) THEN "above" ELSE IF RLt(w, RNeg(eps)) THEN "below" ELSE "inside"
StatusOk(r, w, eps, t) == (Near(RAbs(w), eps, t) /\ t # RZero) \/ r = Status(w, eps)
(* the 2d point q with x inserted as component k (1-based) *)
Insert(q, k, x) == [i \in 1..(Len(q) + 1) |-> IF i < k THEN q[i] ELSE IF i = k THEN x ELSE q[i - 1]]
ZeroV(v) == \A i \in 1..Len(v) : v[i] = RZero

PlaneOk(e, r, p1, p2, p3) ==     \* r: the normal and distance returned for three points in general position
  LET c == VCross(VSub(p3, p1), VSub(p2, p1)) l == RSqrt(VSqLen(c), 90)
      k == RMul(RInt(64), RDiv(RSqrt(RMul(VSqLen(VSub(p3, p1)), VSqLen(VSub(p2, p1))), 90), l))      \* conditioning of the normal
  IN /\ VNear(VScale(r.n, l), c, RMul(l, TolOf(e.p, k)))
     /\ UnitV(r.n, e.p)
     /\ Near(r.d, VDot(p1, r.n), T8(e, <<p1>>))
SinSq(p1, p2, p3) == LET a == VSub(p3, p1) b == VSub(p2, p1) IN RDiv(Gram(a, b), RMul(VSqLen(a), VSqLen(b)))
AngEps == RNum("1e-8")
PointsOk(e, ok, r, p1, p2, p3) ==
  IF VSqLen(VSub(p3, p1)) = RZero \/ VSqLen(VSub(p2, p1)) = RZero \/ Gram(VSub(p3, p1), VSub(p2, p1)) = RZero
  THEN ok = FALSE
  ELSE LET s == RSqrt(SinSq(p1, p2, p3), 60)
           m == RMin(VMaxAbs(VSub(p3, p1)), VMaxAbs(VSub(p2, p1)))
           t == RMul(RPow2(IF e.p = "f" THEN -19 ELSE -48), RAdd(ROne, RDiv(RMax(VMaxAbs(p1), RMax(VMaxAbs(p2), VMaxAbs(p3))), m)))
       IN IF RLt(RAdd(s, t), AngEps) THEN ok = FALSE
          ELSE RLt(RAdd(AngEps, t), s) => ok = TRUE /\ PlaneOk(e, r, p1, p2, p3)

PostC13(e) ==
  CASE e.op = "make" ->
         /\ e.dn.d = e.d /\ e.dn.n = e.n
         /\ Near(e.an.d, VDot(e.a, e.n), T8(e, <<e.a>>)) /\ e.an.n = e.n
         /\ VNear(e.anchor, VScale(e.n, e.d), T8(e, <<<<e.d>>>>))
         /\ e.flip.d = RNeg(e.d) /\ e.flip.n = VNeg(e.n)
         /\ e.zero.d = RZero /\ ZeroV(e.zero.n)
         /\ Near(e.conv.d, e.d, TolOf("f", RAbs(e.d))) /\ VNear(e.conv.n, e.n, TolOf("f", ROne))
    [] e.op = "point" ->
         LET w == Height(e.q, e.n, e.d) t == T8(e, <<e.q, <<e.d>>>>)
             \* no rounding: few bits, or the plane contains the origin and the point is on its normal
             x == IF AxisV(e.n) /\ ((SimpleV(e.p, e.q) /\ Simple(e.p, e.d)) \/ (e.d = RZero /\ e.q = VScale(e.n, VDot(e.q, e.n))))
                  THEN RZero ELSE t IN
         /\ Near(e.dist, w, x)
         /\ StatusOk(e.dflt, w, DefEps(e.p), x) /\ StatusOk(e.st, w, e.eps, x)
    [] e.op = "at" ->                 \* k: the axis that is solved for
         IF e.n[e.k] = RZero THEN e.r = RZero /\ (e.k \in 1..3 => e.named = RZero)
         ELSE /\ Near(RMul(Height(Insert(e.q, e.k, e.r), e.n, e.d), ROne), RZero, T8(e, <<e.q, <<e.d>>, <<RMul(e.r, e.n[e.k])>>>>))
              /\ RIsFin(e.r) /\ e.named = e.r
    [] e.op = "project" ->
         LET w == Height(e.q, e.n, e.d) t == T8(e, <<e.q, <<e.d>>>>) IN
         /\ VNear(e.r, VSub(e.q, VScale(e.n, w)), t)
         /\ VNear(e.v, VSub(e.q, VScale(e.n, VDot(e.q, e.n))), T8(e, <<e.q>>))     \* the vector's part along the plane
    [] e.op = "projectdir" ->
         LET c == VDot(e.dir, e.n)
             w == RDiv(RNeg(Height(e.q, e.n, e.d)), c)
             wv == RDiv(RNeg(VDot(e.q, e.n)), c)
             t == RDiv(T8(e, <<e.q, <<e.d>>>>), RAbs(c))
         IN IF RLe(RAbs(c), RSub(AlmostZero, TolOf(e.p, RInt(4)))) THEN AllNaN(e.r) /\ AllNaN(e.v)
            ELSE RLt(RAdd(AlmostZero, TolOf(e.p, RInt(4))), RAbs(c)) =>
                 VNear(e.r, At(e.q, e.dir, w), t) /\ VNear(e.v, At(e.q, e.dir, wv), RDiv(T8(e, <<e.q>>), RAbs(c)))
    [] e.op = "points" -> PointsOk(e, e.ok, e.r, e.p1, e.p2, e.p3) /\ (e.nok = e.ok) /\ (e.ok => e.nn = e.r.n)
                          /\ (~e.ok => ZeroV(e.r.n) /\ ZeroV(e.nn))
    [] e.op = "range" ->              \* the first three points of a list, each negated by the accessor
         /\ IF Len(e.l) < 3 THEN e.ok = FALSE /\ e.gok = FALSE
            ELSE /\ PointsOk(e, e.ok, e.r, e.l[1], e.l[2], e.l[3])
                 /\ PointsOk(e, e.gok, e.g, VNeg(e.l[1]), VNeg(e.l[2]), VNeg(e.l[3]))
    [] e.op = "transform" ->          \* m is a similarity
         LET i == MDir(e.m, e.n) s == RSqrt(VSqLen(i), 90) a == VScale(e.n, e.d)
             t == TolOf(e.p, RMul(RInt(64), RMul(RAdd(ROne, MMaxAbs(e.m)), Scl(<<e.q, <<e.d>>>>))))
             tl == TolOf(e.p, RMul(RInt(64), RAdd(ROne, RMaxAbs([k \in 1..3 |-> VMaxAbs(SubSeq(e.m[k], 1, 3))]))))
         IN /\ VNear(VScale(e.r.n, s), i, tl) /\ UnitV(e.r.n, e.p)
            /\ Near(Height(MPoint(e.m, e.q), e.r.n, e.r.d), RMul(s, Height(e.q, e.n, e.d)), t)
    [] e.op = "equal" ->
         LET same == e.d = e.d2 /\ e.n = e.n2
             x == RMax(RAbs(RSub(e.d, e.d2)), VMaxAbs(VSub(e.n, e.n2))) IN
         /\ e.eq = same /\ e.ne = ~same
         /\ (Near(x, e.eps, T8(e, <<<<e.d>>>>)) /\ e.eps # RZero /\ ~(SimpleV(e.p, e.n \o e.n2) /\ Simple(e.p, e.d) /\ Simple(e.p, e.d2)))
            \/ e.iseq = RLe(x, e.eps)
    [] e.op = "special" ->
         LET l == RSqrt(VSqLen(e.dir), 90) m == VMaxAbs(e.dir) IN
         /\ e.hor.n = <<RZero, RZero, ROne>> /\ Near(e.hor.d, e.q[3], T8(e, <<e.q>>))
         /\ VNear(VScale(e.orth.n, l), e.dir, TolOf(e.p, RMul(RInt(4), l))) /\ Near(e.orth.d, VDot(e.q, e.orth.n), T8(e, <<e.q>>))
         /\ \E k \in 1..3 : /\ RAbs(e.dir[k]) = m
                            /\ e.ali.n = (IF RSgn(e.dir[k]) < 0 THEN VNeg(VAxis(3, k)) ELSE VAxis(3, k))
         /\ Near(e.ali.d, VDot(e.q, e.ali.n), T8(e, <<e.q>>))
=============================================================================

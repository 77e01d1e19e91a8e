--------------------------------- MODULE C21 ---------------------------------
(* Intersections of lines with planes and of planes with planes. A plane is a  *)
(* unit normal n and a distance: the points q with q.n = dist.                  *)
EXTENDS Geo
Scl(vs) == RAdd(ROne, RMaxAbs([i \in 1..Len(vs) |-> VMaxAbs(vs[i])]))
AZ == RNum("0.001")
ZeroV(v) == \A i \in 1..Len(v) : v[i] = RZero
PostC21(e) ==
  CASE e.op = "lineplane" ->
         LET f == VDot(e.d, e.n) tf == TolOf(e.p, RInt(4))
             \* the plane as the library represents it: through n * dist, orthogonal to n
             t == RDiv(RSub(RMul(e.dist, VSqLen(e.n)), VDot(e.o, e.n)), f)
             tt == RDiv(TolOf(e.p, RMul(RInt(16), Scl(<<e.o, <<e.dist>>, <<IF f = RZero THEN RZero ELSE t>>>>))), RAbs(f))
         IN IF RLt(RAbs(f), RSub(AZ, tf)) THEN RIsNaN(e.r)
            ELSE RLt(RAbs(f), RAdd(AZ, tf)) \/ Near(e.r, t, tt)
    [] e.op = "planeplane" ->
         LET c == VCross(e.n1, e.n2)
             s == RSqrt(VSqLen(c), 60)                         \* sine of the angle
             ts == TolOf(e.p, RInt(8))
             none == ZeroV(e.rd) /\ ZeroV(e.rp)
             t == RDiv(TolOf(e.p, RMul(RInt(16), Scl(<<<<e.d1, e.d2>>>>))), RMul(s, s))
         IN IF RLt(s, RSub(AZ, ts)) THEN none
            ELSE IF RLt(s, RAdd(AZ, RMul(RInt(8), ts))) THEN TRUE
            ELSE /\ Near(VSqLen(e.rd), ROne, TolOf(e.p, RInt(8)))
                 \* the direction lies in both planes, up to the conditioning of the cross product
                 /\ RLe(RMul(RAbs(VDot(e.rd, e.n1)), s), TolOf(e.p, RInt(8)))
                 /\ RLe(RMul(RAbs(VDot(e.rd, e.n2)), s), TolOf(e.p, RInt(8)))
                 /\ Near(VDot(e.rp, e.n1), e.d1, t)
                 /\ Near(VDot(e.rp, e.n2), e.d2, t)
=============================================================================

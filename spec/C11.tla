--------------------------------- MODULE C11 ---------------------------------
(* A segment is an unordered pair of points, stored in order. The state of a  *)
(* segment object in a history is the pair it showed last.                    *)
EXTENDS Order, Geo

Ordered(s, t) == LexExact(s, t) <= 0
SamePair(s, t, a, b) == (s = a /\ t = b) \/ (s = b /\ t = a)
NearPair(s, t, a, b, tol) == (VNear(s, a, tol) /\ VNear(t, b, tol)) \/ (VNear(s, b, tol) /\ VNear(t, a, tol))
Scl(vs) == RAdd(ROne, RMaxAbs([i \in 1..Len(vs) |-> VMaxAbs(vs[i])]))
Single(v) == [i \in 1..Len(v) |-> RRnd(v[i], 24)]      \* rounded to float

SegInit == <<>>
SegNext(st, e) == <<e.s, e.t>>
PostSeg(st, e) ==
  /\ Ordered(e.s, e.t)
  /\ CASE e.op = "new" -> SamePair(e.s, e.t, e.a, e.b)
       [] e.op = "copy" -> e.s = st[1] /\ e.t = st[2]
       [] e.op = "tofloat" -> SamePair(e.s, e.t, Single(st[1]), Single(st[2]))
       [] e.op = "todouble" -> SamePair(e.s, e.t, st[1], st[2])
       [] e.op = "translate" ->
            LET M(v) == [i \in 1..Len(v) |-> OpRnd(RAdd(v[i], e.d[i]), e.p)] IN
            SamePair(e.s, e.t, M(st[1]), M(st[2]))
       [] e.op = "transform" ->
            NearPair(e.s, e.t, MPoint(e.m, st[1]), MPoint(e.m, st[2]),
                     TolOf(e.p, RMul(RAdd(ROne, MMaxAbs(e.m)), RMul(RInt(8), Scl(<<st[1], st[2]>>)))))

PostC11(e) ==
  CASE e.op = "measure" ->
         LET d == VSub(e.t, e.s) l2 == VSqLen(d) l == RSqrt(l2, 100) sc == Scl(<<e.s, e.t>>) IN
         /\ VNear(e.center, VScale(VAdd(e.s, e.t), RHalf), TolOf(e.p, sc))
         /\ Near(e.len2, l2, RAdd(TolOf(e.p, RMul(RInt(8), l2)), RPow2(-120)))
         /\ Near(e.len, l, RAdd(TolOf(e.p, RMul(RInt(8), l)), RPow2(-60)))
         /\ Near(e.lenc, l, RAdd(TolOf(e.p, RMul(RInt(8), l)), RPow2(-60)))
         /\ RLt(RFrac(1, 8), l2) => /\ VNear(VScale(e.dir, l), d, TolOf(e.p, RMul(RInt(8), l)))
                                    /\ e.gdir = e.dir
         /\ e.orig = e.s
    [] e.op = "contains" ->
         LET d == VSub(e.t, e.s) k == ClosestT(e.s, d, e.q) IN
         IF SimpleV(e.p, e.s \o e.t \o e.q \o <<e.m>>) /\ Simple(e.p, k)                  \* no rounding
         THEN e.r = RLe(PtSeg2(e.s, e.t, e.q), RSq(e.m))
         ELSE WithinOk(e.r, PtSeg2(e.s, e.t, e.q), e.m, TolOf(e.p, RMul(RInt(8), Scl(<<e.s, e.t, e.q>>))))
    [] e.op = "equal" ->       \* the same two points in either order, or one of them changed
         LET same == SamePair(e.c, e.d, e.a, e.b) IN e.eq = same /\ e.ne = ~same
    [] e.op = "vertices" -> e.r = e.l
=============================================================================

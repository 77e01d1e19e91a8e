--------------------------------- MODULE C18 ---------------------------------
(* Distances of points, rays, lines and segments: minimal and attained.        *)
EXTENDS Near

Sc2(e, vs) == TolOf(e.p, RMul(RInt(16), RSq(RAdd(ROne, RMaxAbs([i \in 1..Len(vs) |-> VMaxAbs(vs[i])])))))
(* the error of a length or position, not of a square *)
Sc1(e, vs) == TolOf(e.p, RMul(RInt(64), RAdd(ROne, RMaxAbs([i \in 1..Len(vs) |-> VMaxAbs(vs[i])]))))
AlmostZero == RNum("0.001")
Pos2D(e) == IF e.kind = "segment" THEN VSub(e.b, e.a) ELSE e.d2
Start2(e) == IF e.kind = "segment" THEN e.a ELSE e.o2
Int2(e) == CASE e.kind = "ray" -> RayI [] e.kind = "line" -> LineI [] e.kind = "segment" -> SegI
(* the point of the second set at the reported position *)
AtPos2(e) ==
  IF e.kind = "segment"
  THEN LET u == Pos2D(e) l == RSqrt(VSqLen(u), 80)
       IN IF l = RZero THEN e.a ELSE At(e.a, u, RDiv(e.pos2, l))
  ELSE At(e.o2, e.d2, e.pos2)

PostC18(e) ==
  CASE e.op = "ptray" ->
         LET m == PtRay2(e.o, e.d, e.q) t == Sc2(e, <<e.o, e.q>>) IN
         /\ Near(e.sq, m, t) /\ Near(RSq(e.dist), m, t) /\ RLe(RZero, e.dist)
         /\ e.pos = e.pos1 /\ RLe(RZero, e.pos)
         /\ Near(VSqLen(VSub(e.q, At(e.o, e.d, e.pos))), m, t)
         /\ LET s == Sc1(e, <<e.o, e.q>>) IN
            Near(e.dist, RSqrt(m, 60), s) /\ Near(e.pos, Best(e.o, e.d, RayI, e.q), s)
    [] e.op = "ptseg" ->
         LET m == PtSeg2(e.a, e.b, e.q) t == Sc2(e, <<e.a, e.b, e.q>>)
             u == VSub(e.b, e.a) l == RSqrt(VSqLen(u), 80) IN
         /\ Near(e.sq, m, t) /\ Near(RSq(e.dist), m, t) /\ RLe(RZero, e.dist)
         /\ e.pos = e.pos1 /\ RLe(RZero, e.pos) /\ RLe(e.pos, RAdd(l, t))
         /\ Near(VSqLen(VSub(e.q, IF l = RZero THEN e.a ELSE At(e.a, u, RDiv(e.pos, l)))), m, t)
         /\ LET s == Sc1(e, <<e.a, e.b, e.q>>) IN
            /\ Near(e.dist, RSqrt(m, 60), s)
            /\ l # RZero => Near(e.pos, RMul(l, Best(e.a, u, SegI, e.q)), s)
    [] e.op = "pair" ->
         LET u == Pos2D(e) o2 == Start2(e) i2 == Int2(e)
             g == Gram(e.d, u)
             tg == TolOf(e.p, RMul(RInt(4), RAdd(ROne, VSqLen(u))))
             t == Sc2(e, <<e.o, o2, u>>)
             l == RSqrt(VSqLen(u), 80)
             \* between parallel and 2.5 degrees the result is only as good as the angle
             slack == IF ~e.par THEN RZero ELSE RMul(RTwo, RAdd(RSqrt(g, 60), t))
             m == MinGap2(e.o, e.d, RayI, o2, u, i2)
             lm == RSqrt(m, 60)
             judge == \/ g = RZero \/ RLe(RNum("0.002"), g) \/ e.kind = "segment"
         IN /\ RLt(RAdd(AlmostZero, tg), g) => ~e.par
            /\ RLt(g, RSub(AlmostZero, tg)) => e.par
            /\ RLe(RZero, e.pos1)
            /\ e.kind = "ray" => RLe(RZero, e.pos2)
            /\ e.kind = "segment" => RLe(RZero, e.pos2) /\ RLe(e.pos2, RAdd(l, t))
            /\ RIsFin(e.pos1) /\ RIsFin(e.pos2) /\ RIsFin(e.sq)
            /\ Near(RSq(e.dist), e.sq, t) /\ RLe(RZero, e.dist)
            /\ judge =>
                 LET at == VSqLen(VSub(At(e.o, e.d, e.pos1), AtPos2(e)))
                     hi == RAdd(RSq(RAdd(lm, slack)), t)
                     lo == RSub(IF RLt(lm, slack) THEN RZero ELSE RSq(RSub(lm, slack)), t)
                 IN /\ RLe(lo, e.sq) /\ RLe(e.sq, hi)
                    /\ RLe(RSub(m, t), at) /\ RLe(at, hi)
            \* skew sets: the closest points are unique, and as well determined as the angle allows
            /\ (judge /\ ~e.par) =>
                 LET s == RMul(Sc1(e, <<e.o, o2, u>>), RAdd(ROne, RDiv(RAdd(ROne, VSqLen(u)), g)))
                     t1 == ArgMin(e.o, e.d, RayI, o2, u, i2)
                     t2 == Best(o2, u, i2, At(e.o, e.d, t1)) IN
                 /\ Near(e.dist, lm, s)
                 /\ Near(e.pos1, t1, s)
                 /\ Near(e.pos2, IF e.kind = "segment" THEN RMul(l, t2) ELSE t2, s)
            /\ e.samepos
    [] e.op = "colinear" -> e.r = (e.par /\ RLe(e.sq, e.max))
    [] e.op = "make" -> e.par = e.ipar /\ e.pos1 = e.i1 /\ e.sq = e.id /\ e.pos2 = e.i2
=============================================================================

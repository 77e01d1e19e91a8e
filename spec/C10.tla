--------------------------------- MODULE C10 ---------------------------------
(* Corners, faces, edges and derived boxes.                                   *)
EXTENDS Box, Cube

Scale(b) == RMaxAbs(b.min \o b.max)
Tol(e)   == TolOf(e.p, RMaxAbs(e.a.min \o e.a.max))
(* one tolerance per axis: a box may be long along one axis and short along another *)
AxTol(e) == [i \in 1..BDim(e.a) |-> TolOf(e.p, RMax(RAbs(e.a.min[i]), RAbs(e.a.max[i])))]
ANear(u, v, t) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Near(u[i], v[i], t[i])
(* corner selection of a point; 2 where it is in neither bounding plane *)
Sel(b, q, tol) == [i \in 1..Len(q) |-> IF Near(q[i], b.min[i], tol[i]) THEN 0 ELSE IF Near(q[i], b.max[i], tol[i]) THEN 1 ELSE 2]
Pick(b, c) == [i \in 1..Len(c) |-> IF c[i] = 0 THEN b.min[i] ELSE b.max[i]]
CornerPts(b) == {Pick(b, c) : c \in Corners}
Solid(b, t) == \A i \in 1..BDim(b) : RLt(RMul(RInt(4), t[i]), RSub(b.max[i], b.min[i]))
BNear(a, b, tol) == VNear(a.min, b.min, tol) /\ VNear(a.max, b.max, tol)
(* flat boxes: corners coincide, so only the set of points is determined *)
SameSet(s, T, tol) == /\ \A i \in 1..Len(s) : \E t \in T : ANear(s[i], t, tol)
                      /\ \A t \in T : \E i \in 1..Len(s) : ANear(s[i], t, tol)
ToInt3(v) == [i \in 1..3 |-> IF v[i] = RZero THEN 0 ELSE IF v[i] = ROne THEN 1 ELSE IF v[i] = RInt(-1) THEN -1 ELSE 2]
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN ROne ELSE RMul(s[1], Prod(Tail(s)))
LeastAround(s) == BHull([i \in 1..Len(s) |-> BoxAt(s[i], s[i])])

PostC10(e) ==
  CASE e.op = "vertices" ->
         LET t == AxTol(e) s == [i \in 1..Len(e.v) |-> Sel(e.a, e.v[i], t)] IN
         /\ Len(e.v) = 8 /\ e.each = e.v
         /\ SameSet(e.v, CornerPts(e.a), t)
         /\ Solid(e.a, t) => {s[i] : i \in 1..8} = Corners
    [] e.op = "edges" ->
         LET t == AxTol(e) IN
         /\ Len(e.l) = 12
         /\ \A i \in 1..12 : \A j \in 1..2 : \E c \in CornerPts(e.a) : ANear(e.l[i][j], c, t)
         /\ Solid(e.a, t) => {{Sel(e.a, e.l[i][1], t), Sel(e.a, e.l[i][2], t)} : i \in 1..12} = CubeEdges
    [] e.op = "faces" ->
         LET t == AxTol(e) N(i) == ToInt3(e.l[i][5])
             Q(i) == [j \in 1..4 |-> Sel(e.a, e.l[i][j], t)] IN
         /\ Len(e.l) = 6
         /\ {N(i) : i \in 1..6} = Axes6
         /\ \A i \in 1..6 : \A j \in 1..4 : \E c \in CornerPts(e.a) : ANear(e.l[i][j], c, t)
         /\ Solid(e.a, t) => \A i \in 1..6 : IsFace(Q(i), N(i))
    [] e.op = "corner" -> e.r = Pick(e.a, e.c) /\ (Len(e.c) = 3 => e.r3 = e.r)
    [] e.op = "measure" ->
         /\ VNear(e.center, VScale(VAdd(e.a.min, e.a.max), RHalf), Tol(e))
         /\ VNear(e.size, VSub(e.a.max, e.a.min), Tol(e))
         /\ LET d == VSub(e.a.max, e.a.min) m == Scale(e.a) n == Len(d) IN
            Near(e.volume, Prod(d), RMul(TolOf(e.p, RInt(16)), Prod([i \in 1..n |-> m])))
    [] e.op = "expand" -> e.r = BoxAt([i \in 1..BDim(e.a) |-> OpRnd(RSub(e.a.min[i], e.f), e.p)],
                                     [i \in 1..BDim(e.a) |-> OpRnd(RAdd(e.a.max[i], e.f), e.p)])
    [] e.op = "translate" -> e.r = BoxAt([i \in 1..BDim(e.a) |-> OpRnd(RAdd(e.a.min[i], e.d[i]), e.p)],
                                        [i \in 1..BDim(e.a) |-> OpRnd(RAdd(e.a.max[i], e.d[i]), e.p)])
    [] e.op = "transform" ->
         LET C == <<0, 1>>
             sel == << <<0,0,0>>, <<0,0,1>>, <<0,1,0>>, <<0,1,1>>, <<1,0,0>>, <<1,0,1>>, <<1,1,0>>, <<1,1,1>> >>
             img == [i \in 1..8 |-> MPoint(e.m, Pick(e.a, sel[i]))]
             s == RMul(RInt(8), RMul(RAdd(ROne, MMaxAbs(e.m)), RAdd(ROne, Scale(e.a))))
         IN BNear(e.r, LeastAround(img), TolOf(e.p, s))
=============================================================================

--------------------------------- MODULE C16 ---------------------------------
(* What the matrix builders have to do to points.                             *)
EXTENDS Rot

U(e, k) == TolOf(e.p, RInt(k))
Scl(vs) == RAdd(ROne, RMaxAbs([i \in 1..Len(vs) |-> VMaxAbs(vs[i])]))
XA == VAxis(3, 1)
YA == VAxis(3, 2)
ZA == VAxis(3, 3)
Euler(r, p, y) == MMul(RotMat(ZA, y), MMul(RotMat(YA, p), RotMat(XA, r)))
Lax(e) == IF e.p = "d" THEN RPow2(-21) ELSE RPow2(-8)       \* square root of the precision
MapTol(e, m, q) == TolOf(e.p, RMul(RInt(32), RMul(RAdd(ROne, MMaxAbs(m)), Scl(<<q>>))))
Maps(e, m, q, r) == VNear(MPoint(m, q), r, MapTol(e, m, VAdd(VAbs(q), VAbs(r))))
AffineRow(m) == m[4] = VAxis(4, 4)
Corner(b, c) == [i \in 1..3 |-> IF c[i] = 0 THEN b.min[i] ELSE b.max[i]]
Cs == {<<x, y, z>> : x \in {0, 1}, y \in {0, 1}, z \in {0, 1}}

PostC16(e) ==
  CASE e.op = "axisangle" -> IsRot(e.m, RotMat(e.k, e.a), U(e, 8)) /\ Orthogonal(MLin(e.m), U(e, 32))
                             /\ VNear(MDir(e.m, e.k), e.k, U(e, 16))
    [] e.op = "euler" -> IsRot(e.m, Euler(e.roll, e.pitch, e.yaw), U(e, 8))
    [] e.op = "toeuler" ->               \* angles of the rotation matrix m give m back
         VFin(e.a) /\ MNear(Euler(e.a[1], e.a[2], e.a[3]), MLin(e.m), Lax(e))
    [] e.op = "quat" -> IsRot(e.m, QMat(e.q), U(e, 16))
    [] e.op = "fromto" -> /\ AffineRow(e.m) /\ Orthogonal(MLin(e.m), U(e, 32))
                          /\ VNear(MDir(e.m, e.f), e.t, Lax(e))
    [] e.op = "translation" ->           \* any dimension n
         LET n == Len(e.d) IN e.m = [i \in 1..(n + 1) |-> [j \in 1..(n + 1) |->
              IF i = j THEN ROne ELSE IF j = n + 1 THEN e.d[i] ELSE RZero]]
    [] e.op = "scaling" -> e.m = Diag(Append(e.d, ROne))
    [] e.op = "parts" ->                 \* translation part and the rest compose to the affine matrix
         LET n == Len(e.a) IN
         /\ e.strip = [i \in 1..n |-> [j \in 1..n |-> IF j = n /\ i < n THEN RZero ELSE e.a[i][j]]]
         /\ e.trans = [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN ROne ELSE IF j = n THEN e.a[i][j] ELSE RZero]]
    [] e.op = "mirror" -> e.m = Diag([i \in 1..4 |-> IF i = e.k + 1 THEN RInt(-1) ELSE ROne])
    [] e.op = "coords" ->                \* o + a x + b y + c z  is mapped to  (a, b, c)
         LET q == VAdd(e.o, VAdd(VScale(e.x, e.w[1]), VAdd(VScale(e.y, e.w[2]), VScale(e.z, e.w[3])))) IN
         VNear(MPoint(e.m, q), e.w, RMul(MapTol(e, e.m, q), RMul(RInt(8), RAdd(ROne, MMaxAbs(e.m)))))
    [] e.op = "planeproj" ->             \* plane n.x = d, projection along dir
         LET a == VScale(e.n, e.d) t == RMul(MapTol(e, e.m, a), RAdd(ROne, MMaxAbs(e.m)))
             w == VSub(e.q, VScale(e.n, VDot(e.q, e.n))) i == MDir(e.m, w)      \* a vector in the plane
             lin == RSq(RAdd(ROne, MMaxAbs(MLin(e.m)))) tl == TolOf(e.p, RMul(RInt(64), lin))  \* directions do not depend on the distance
         IN /\ VNear(MPoint(e.m, a), VZero(3), RMul(t, RInt(4)))
            /\ VNear(MDir(e.m, e.dir), ZA, tl)
            /\ Near(i[3], RZero, RMul(tl, Scl(<<w>>))) /\ Near(VSqLen(i), VSqLen(w), RMul(RInt(8), RMul(tl, RSq(Scl(<<w>>)))))
    [] e.op = "shear" ->                 \* s = <<xy, xz, yx, yz, zx, zy>>
         e.m = << <<ROne, e.s[3], e.s[5], RZero>>, <<e.s[1], ROne, e.s[6], RZero>>,
                  <<e.s[2], e.s[4], ROne, RZero>>, <<RZero, RZero, RZero, ROne>> >>
    [] e.op = "scalebox" -> \A c \in Cs : Maps(e, e.m, Corner(e.a, c), Corner(e.b, c))
    [] e.op = "scaleanchor" ->           \* the anchor stays, and distances from it scale by new / old size
         LET f == [i \in 1..3 |-> RDiv(e.size[i], RSub(e.a.max[i], e.a.min[i]))] IN
         \A c \in Cs : LET q == Corner(e.a, c) IN
            Maps(e, e.m, q, [i \in 1..3 |-> RAdd(e.o[i], RMul(RSub(q[i], e.o[i]), f[i]))])
    [] e.op = "shearbox" ->              \* side k (sign s) moves by delta in its plane, the opposite side stays
         \A c \in Cs : LET q == Corner(e.a, c) on == (c[e.k] = 1) = (e.s > 0)
                           dlt == [i \in 1..3 |-> IF i = e.k THEN RZero ELSE e.delta[i]] IN
            Maps(e, e.m, q, IF on THEN VAdd(q, dlt) ELSE q)
    [] e.op = "points" ->                \* the images of three or four points
         IF e.singular THEN \A i \in 1..4 : AllNaN(e.m[i])
         ELSE /\ \A i \in 1..Len(e.f) : VNear(MPoint(e.m, e.f[i]), e.t[i], RMul(MapTol(e, e.m, e.f[i]), RInt(64)))
              /\ Len(e.f) = 3 =>         \* and the unit normals correspond
                 LET n(s) == VCross(VSub(s[2], s[1]), VSub(s[3], s[1]))
                     u(s) == LET c == n(s) l == RSqrt(VSqLen(c), 80) IN VScale(c, RDiv(ROne, l))
                 IN VNear(MDir(e.m, u(e.f)), u(e.t), RMul(MapTol(e, e.m, e.f[1]), RInt(64)))
    [] e.op = "perspective" ->
         LET h == RDiv(RMul(e.fov, RPi), RInt(360))
             v == RMul(RMul(RDiv(SinR(h), CosR(h)), RFrac(3, 4)), e.near)
             w == RDiv(RMul(v, RInt(e.w)), RInt(e.h))
             Clip(q) == MApply(e.m, Append(q, ROne))
             Ndc(q) == LET c == Clip(q) IN [i \in 1..3 |-> RDiv(c[i], c[4])]
             t == RMul(U(e, 64), RDiv(RAdd(e.far, e.near), RAbs(RSub(e.far, e.near))))
             k == RDiv(e.far, e.near)
         IN /\ VNear(Ndc(<<w, v, RNeg(e.near)>>), <<ROne, ROne, RInt(-1)>>, t)
            /\ VNear(Ndc(<<RNeg(RMul(w, k)), RNeg(RMul(v, k)), RNeg(e.far)>>), <<RInt(-1), RInt(-1), ROne>>, t)
            /\ Clip(<<RZero, RZero, RNeg(e.near)>>)[4] = e.near
    [] e.op = "ortho" ->
         LET Sz(a, b) == RDiv(RAdd(RAbs(a), RAbs(b)), RAbs(RSub(a, b)))
             t == RMul(U(e, 16), RAdd(RInt(2), RMax(Sz(e.near, e.far), RMax(Sz(e.left, e.right), Sz(e.top, e.bottom))))) IN
         /\ VNear(MPoint(e.m, <<e.left, e.bottom, RNeg(e.near)>>), <<RInt(-1), RInt(-1), RInt(-1)>>, t)
         /\ VNear(MPoint(e.m, <<e.right, e.top, RNeg(e.far)>>), <<ROne, ROne, ROne>>, t)
         /\ \A i, j \in 1..3 : i # j => e.m[i][j] = RZero
    [] e.op = "view" ->                  \* orthonormal direction and up: they become -Z and +Y
         /\ IsRot(e.m, <<VCross(e.d, e.u), e.u, VNeg(e.d)>>, U(e, 16))

(* Histories: a transformation that is built up from generators. The state is *)
(* the images of four points (the origin and the unit points), computed on    *)
(* points only; the recorded matrix product has to map them there.            *)
Start == << VZero(3), XA, YA, ZA >>
PrepInit == Start
GenPt(e, q) == CASE e.op = "translate" -> VAdd(q, e.d)
                 [] e.op = "scale" -> [i \in 1..3 |-> RMul(q[i], e.d[i])]
                 [] e.op = "mirror" -> [i \in 1..3 |-> IF i = e.k THEN RNeg(q[i]) ELSE q[i]]
                 [] e.op \in {"quarter", "quarterq", "quartera", "quartere"} ->       \* ccw about axis k, n times
                      LET j == (e.k % 3) + 1 l == (j % 3) + 1
                          turn(p) == [i \in 1..3 |-> IF i = e.k THEN p[i] ELSE IF i = j THEN RNeg(p[l]) ELSE p[j]]
                      IN IF e.n = 1 THEN turn(q) ELSE IF e.n = 2 THEN turn(turn(q)) ELSE turn(turn(turn(q)))
                 [] e.op = "shear" -> [i \in 1..3 |-> IF i = e.k THEN RAdd(q[i], RMul(e.s, q[(e.k % 3) + 1])) ELSE q[i]]
                 [] e.op = "undo" -> q
PrepNext(st, e) == IF e.op = "undo" THEN Start ELSE [i \in 1..4 |-> GenPt(e, st[i])]
PostPrep(st, e) == LET s == PrepNext(st, e) m == RAdd(ROne, RMaxAbs([i \in 1..4 |-> VMaxAbs(s[i])])) IN
                   \A i \in 1..4 : VNear(e.img[i], s[i], TolOf("d", RMul(RInt(64), RMul(m, IF e.op = "undo" THEN RInt(4096) ELSE ROne))))
=============================================================================

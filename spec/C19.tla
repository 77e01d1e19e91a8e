--------------------------------- MODULE C19 ---------------------------------
(***************************************************************************)
(* Intersections of rays with planes, triangles, polygons, boxes, spheres  *)
(* and tori. r is the returned distance, NaN for a miss. Where the answer  *)
(* depends on a comparison that is within rounding of its threshold (an    *)
(* edge, a silhouette, a documented epsilon), both answers are allowed.    *)
(***************************************************************************)
EXTENDS Poly2, Polyn

Scl(vs) == RAdd(ROne, RMaxAbs([i \in 1..Len(vs) |-> VMaxAbs(vs[i])]))
AZ == RNum("0.001")
Miss(e) == RIsNaN(e.r)
AddSc(v, s) == [i \in 1..Len(v) |-> RAdd(v[i], s)]

(* the parameter of the plane through a with (any) normal n *)
PlaneT(o, d, a, n) == RDiv(VDot(VSub(a, o), n), VDot(d, n))

RayPlane(e) ==       \* unit normal n, anchor a = n * dist
  LET f == VDot(e.d, e.n)
      tf == TolOf(e.p, RInt(4))
      t == PlaneT(e.o, e.d, VScale(e.n, e.dist), e.n)
      tt == RDiv(TolOf(e.p, RMul(RInt(16), Scl(<<e.o, <<e.dist>>, <<IF f = RZero THEN RZero ELSE t>>>>))), RAbs(f))
  IN IF RLt(RAbs(f), RSub(AZ, tf)) THEN Miss(e)
     ELSE IF RLt(RAbs(f), RAdd(AZ, tf)) THEN TRUE
     ELSE IF Miss(e) THEN RLt(t, RSub(tt, AZ))
     ELSE RLt(RNeg(RAdd(AZ, tt)), t) /\ Near(e.r, t, tt)

(* triangle: the plane's point lies in the triangle; the margins are areas *)
RayTriangle(e) ==
  LET n == VCross(VSub(e.b, e.a), VSub(e.c, e.a))
      f == VDot(e.d, n)
      s == Scl(<<e.o, e.a, e.b, e.c>>)
      tf == TolOf(e.p, RMul(RInt(4), RSq(s)))
  IN IF RLt(RAbs(f), RSub(AZ, tf)) THEN Miss(e)
     ELSE IF RLt(RAbs(f), RAdd(AZ, RMul(RInt(16), tf))) THEN TRUE
     ELSE LET t == PlaneT(e.o, e.d, e.a, n)
              q == At(e.o, e.d, t)
              nn == VSqLen(n)
              W(x, y) == RDiv(VDot(VCross(VSub(y, x), VSub(q, x)), n), nn)
              w == <<W(e.a, e.b), W(e.b, e.c), W(e.c, e.a)>>
              tw == RDiv(TolOf(e.p, RMul(RInt(16), RMul(s, RSq(s)))), RAbs(f))
              lo == RMin(RMin(w[1], w[2]), w[3])
              \* few-bit input and a power of two to divide by: no rounding, the
              \* edges, the corners and a ray that starts on the triangle are hits
              exact == AxisV(e.d) /\ SimpleV(e.p, e.o) /\ SimpleV(e.p, e.a) /\ SimpleV(e.p, e.b) /\ SimpleV(e.p, e.c)
                       /\ RIsInt(f) /\ Simple(e.p, RDiv(ROne, f))
          IN IF exact THEN (IF RSgn(lo) < 0 \/ RSgn(t) < 0 THEN Miss(e) ELSE e.r = t)
             ELSE IF Miss(e) THEN RLt(lo, tw) \/ RLt(t, tw)
             ELSE /\ RLe(RNeg(tw), lo) /\ RLe(RNeg(tw), t)
                  /\ Near(e.r, t, tw)

(* polygon with plane: n, dist as for planes; vs the vertices *)
RayPolygon(e) ==
  LET f == VDot(e.d, e.n) IN
  IF RLt(RAbs(f), RNum("0.002")) THEN (RLt(RAbs(f), RNum("0.0005")) => Miss(e))
  ELSE LET t == PlaneT(e.o, e.d, VScale(e.n, e.dist), e.n)
           tt == RDiv(TolOf(e.p, RMul(RInt(16), Scl(<<e.o, <<e.dist>>, <<t>>>>))), RAbs(f))
           k == MajorAxis(e.n)
           q == Drop3(At(e.o, e.d, t), k)
           ws == DropAll(e.vs, k)
           near == RLt(Edge2(ws, q), RSq(RAdd(RNum("0.003"), RMul(RTwo, tt))))
           in == InPoly(ws, q)
       IN IF Miss(e) THEN RLt(t, RSub(tt, AZ)) \/ near \/ ~in
          ELSE /\ RLt(RNeg(RAdd(AZ, tt)), t) /\ Near(e.r, t, tt)
               /\ near \/ in

(* boxes *)
InAx(e, i) == RLe(e.min[i], e.o[i]) /\ RLe(e.o[i], e.max[i])
RayBox(e) ==
  LET S == 1..Len(e.o)
      out == {i \in S : ~InAx(e, i)}
      Face(i) == IF RLt(e.o[i], e.min[i]) THEN e.min[i] ELSE IF RLt(e.max[i], e.o[i]) THEN e.max[i]
                 ELSE IF RSgn(e.d[i]) < 0 THEN e.min[i] ELSE e.max[i]
      T(i) == RDiv(RSub(Face(i), e.o[i]), e.d[i])
      Rel(t) == RMul(TolOf(e.p, ROne), t)
  IN IF out = {}
     THEN LET t == SetMin({T(i) : i \in {j \in S : e.d[j] # RZero}}) IN Near(e.r, t, Rel(t))
     ELSE IF \E i \in out : RSgn(e.d[i]) = 0 \/ RSgn(T(i)) < 0 THEN Miss(e)
     ELSE LET t == SetMax({T(i) : i \in out})
              C(i) == RAdd(e.o[i], RMul(t, e.d[i]))
              tol(i) == IF e.d[i] = RZero THEN RZero ELSE TolOf(e.p, RMul(RTwo, RAdd(RAbs(e.o[i]), RAbs(C(i)))))
              \* the slabs of the planes that were not chosen; the chosen one is met exactly
              others == S \ {CHOOSE i \in out : T(i) = t}
              surelyOut == \E i \in others : RLt(C(i), RSub(e.min[i], tol(i))) \/ RLt(RAdd(e.max[i], tol(i)), C(i))
              surelyIn == \A i \in others : RLe(RAdd(e.min[i], tol(i)), C(i)) /\ RLe(C(i), RSub(e.max[i], tol(i)))
          IN /\ surelyOut => Miss(e)
             /\ surelyIn => ~Miss(e)
             /\ Miss(e) \/ Near(e.r, t, Rel(t))

(* spheres: |o + t d - c|^2 = R^2, that is A t^2 + 2 B t + C = 0 *)
RaySphere(e) ==
  LET w == VSub(e.o, e.c)
      A == VSqLen(e.d) B == VDot(w, e.d) C == RSub(VSqLen(w), RSq(e.rad))
      D == RSub(RSq(B), RMul(A, C))
      tol == TolOf(e.p, RMul(RInt(16), RAdd(RSq(e.rad), VSqLen(w))))
      \* few-bit input: tangents and rays that start on the sphere are decided exactly
      exact == AxisV(e.d) /\ SimpleV(e.p, e.o) /\ SimpleV(e.p, e.c) /\ Simple(e.p, e.rad)
  IN IF exact /\ D = RZero THEN (IF RSgn(B) > 0 THEN Miss(e) ELSE e.r = RNeg(B))
     ELSE IF exact /\ C = RZero THEN e.r = RZero \/ (RSgn(B) < 0 /\ e.r = RMul(RInt(-2), B))
     ELSE IF RLt(D, IF exact THEN RZero ELSE RNeg(tol)) THEN Miss(e)
     ELSE IF RLe(D, tol) \/ RLe(RAbs(C), tol)
     THEN Miss(e) \/ (RLe(RNeg(tol), e.r) /\ Near(VSqLen(VSub(At(e.o, e.d, e.r), e.c)), RSq(e.rad), RMul(RInt(64), tol)))
     ELSE LET s == RSqrt(D, 80)
              t1 == RDiv(RSub(RNeg(B), s), A) t2 == RDiv(RAdd(RNeg(B), s), A)
              tt == RAdd(RDiv(tol, s), TolOf(e.p, RAbs(B)))
          IN IF RSgn(t2) < 0 THEN Miss(e)
             ELSE Near(e.r, IF RSgn(t1) < 0 THEN t2 ELSE t1, tt)

(* tori around the z axis at c; M major and m minor radius. Inside is F < 0.   *)
TorusF(o, d, M, m) ==
  LET X(i) == <<o[i], d[i]>>
      Sq(i) == PProd(X(i), X(i))
      xy == PAdd(Sq(1), Sq(2))
      G == PAdd(PAdd(xy, Sq(3)), <<RSub(RSq(M), RSq(m))>>)
  IN PAdd(PProd(G, G), PScale(xy, RMul(RInt(-4), RSq(M))))
RayTorus(e) ==
  LET w == VSub(e.o, e.c)
      thin == TorusF(w, e.d, e.M, RSub(e.m, e.delta))
      fat == TorusF(w, e.d, e.M, RAdd(e.m, e.delta))
      out == RLt(RZero, PEval(fat, RZero))          \* the ray starts clearly outside
      ins == RLt(PEval(thin, RZero), RZero)         \* or clearly inside
  IN IF Miss(e) THEN (out => Roots(thin, RZero, RInf) = 0) /\ ~ins
     ELSE /\ RLt(RZero, e.r)
          /\ RLe(PEval(fat, e.r), RZero) /\ RLe(RZero, PEval(thin, e.r))      \* on the surface
          /\ out => Roots(thin, RZero, e.r) = 0                               \* nothing before it
          /\ ins => Roots(fat, RZero, e.r) = 0
PostC19(e) ==
  CASE e.op = "plane" -> RayPlane(e)
    [] e.op = "triangle" -> RayTriangle(e)
    [] e.op = "polygon" -> RayPolygon(e) /\ e.same
    [] e.op = "flat" -> RIsNaN(e.r) /\ RIsNaN(e.g)       \* its vertices do not define a plane
    [] e.op = "bbox" -> RayBox(e)
    [] e.op = "sphere" -> RaySphere(e)
    [] e.op = "torus" -> RayTorus(e)
=============================================================================

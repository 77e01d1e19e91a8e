--------------------------------- MODULE C23 ---------------------------------
(* The state of a polygon in a history is the vertex sequence it showed last;  *)
(* every operation maps it to the smallest-first form of the mapped cycle.     *)
EXTENDS Ring
Single(v) == [i \in 1..Len(v) |-> RRnd(v[i], 24)]
MapV(F(_), vs) == [i \in 1..Len(vs) |-> F(vs[i])]
Scl(vs) == RAdd(ROne, RMaxAbs([i \in 1..Len(vs) |-> VMaxAbs(vs[i])]))
Shows(e, want, tol) == /\ IsCanon(e.r)
                       /\ IF tol = RZero THEN SameCycle(want, e.r) ELSE NearCycle(want, e.r, tol)
RSumV(vs) == [c \in 1..Len(vs[1]) |-> RSum([i \in 1..Len(vs) |-> vs[i][c]])]
PolyInit == <<>>
PolyNext(st, e) == e.r
PostPoly(st, e) ==
  /\ e.count = Len(e.r) /\ e.rr = Rev(e.r) /\ e.it = e.r
  /\ CASE e.op = "new" -> Shows(e, e.l, RZero)
       [] e.op = "copy" -> e.r = st
       [] e.op = "tofloat" -> Shows(e, MapV(Single, st), RZero)
       [] e.op = "todouble" -> Shows(e, st, RZero)
       [] e.op = "invert" -> Shows(e, Rev(st), RZero)
       [] e.op = "translate" ->
            LET M(v) == [i \in 1..Len(v) |-> OpRnd(RAdd(v[i], e.d[i]), e.p)] IN Shows(e, MapV(M, st), RZero)
       [] e.op = "transform" ->
            LET M(v) == MPoint(e.m, v) IN
            Shows(e, MapV(M, st), IF e.exact THEN RZero
                                  ELSE TolOf(e.p, RMul(RAdd(ROne, MMaxAbs(e.m)), RMul(RInt(8), Scl(st)))))

EpsTol(e) == IF e.eps = RZero THEN RZero ELSE CmpTol(e, RMul(RInt(4), Scl(e.a \o e.b)))
(* positional match within d *)
Close(a, b, d) == \A i \in 1..Len(a) : VNear(a[i], b[i], d)
Back(a) == IF a = <<>> THEN a ELSE [i \in 1..Len(a) |-> IF i = 1 THEN a[1] ELSE a[Len(a) + 2 - i]]
UnorientedOk(c, a, b, eps, tol) ==
  IF Len(a) # Len(b) THEN Sgn(c) = (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE IF eps = RZero
  THEN /\ c = 0 <=> SameLoop(a, b)
       /\ c # 0 => Sgn(c) \in LexRange(a, b, RZero, RZero, 1)
  ELSE LET lo == RSub(eps, tol) hi == RAdd(eps, tol) IN
       /\ (Close(a, b, lo) \/ Close(a, Back(b), lo)) => c = 0
       /\ c = 0 => Close(a, b, hi) \/ Close(a, Back(b), hi)

PostC23(e) ==
  CASE e.op = "pair" ->
         LET want == LexRange(e.a, e.b, RZero, RZero, 1) IN
         /\ IsCanon(e.a) /\ IsCanon(e.b)
         /\ SameCycle(e.la, e.a) /\ SameCycle(e.lb, e.b)
         /\ Sgn(e.cmp) \in want /\ OpsAgree(Sgn(e.cmp), e)
         /\ (e.eq = SameCycle(e.la, e.lb))
         /\ UnorientedOk(e.un, e.a, e.b, RZero, RZero)
         /\ Sgn(e.un) = -Sgn(e.nu)
    [] e.op = "pairEps" ->
         LET want == LexRange(e.a, e.b, e.eps, EpsTol(e), 1) IN
         /\ Sgn(e.cmp) \in want
         /\ e.eq = (e.cmp = 0)
         /\ UnorientedOk(e.un, e.a, e.b, e.eps, EpsTol(e))
    [] e.op = "query" ->
         /\ e.has = (\E i \in 1..Len(e.a) : e.a[i] = e.q)
         /\ VNear(e.center, VScale(RSumV(e.a), RFrac(1, Len(e.a))), TolOf(e.p, RMaxAbs([i \in 1..Len(e.a) |-> VMaxAbs(e.a[i])])))
    [] e.op = "getVertices" -> e.r = e.want
    [] e.op = "empty" -> e.r = <<>> /\ e.count = 0 /\ e.inv = <<>> /\ e.has = FALSE
=============================================================================

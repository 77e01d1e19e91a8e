--------------------------------- MODULE C09 ---------------------------------
(* Set reading of boxes: events of single calls, and histories of a builder.  *)
EXTENDS Box

PostC09(e) ==
  CASE e.op = "pair" ->
         /\ e.contains = BSub(e.a, e.b) /\ e.encloses = BEncl(e.a, e.b)
         /\ e.intersects = BMeet(e.a, e.b)
         /\ e.merge = BMerge(e.a, e.b) /\ e.cut = BCut(e.a, e.b)
         /\ e.eq = (e.a = e.b) /\ e.ne = (e.a # e.b)
    [] e.op = "point" ->
         /\ e.contains = BPoint(e.a, e.q) /\ e.merge = BMergeP(e.a, e.q)
         /\ e.clamp = BClamp(e.a, e.q) /\ e.pos = BPos(e.a, e.q)
    [] e.op = "box" -> e.valid = TRUE /\ e.empty = BEmpty(e.a)
    [] e.op = "corners" ->       \* any two corners, valid or not
         /\ e.valid = IsBox(BoxAt(e.lo, e.hi)) /\ e.mvalid = e.valid
         /\ e.repair = BRepair(BoxAt(e.lo, e.hi))
         /\ IsBox(BoxAt(e.lo, e.hi)) => e.made = BoxAt(e.lo, e.hi)
    [] e.op = "ctor" ->
         /\ e.dflt = BOrigin(e.n)
         /\ e.fill = BoxAt([i \in 1..e.n |-> e.lo], [i \in 1..e.n |-> e.hi])
         /\ e.sym = BoxAt([i \in 1..e.n |-> RNeg(RAbs(e.lo))], [i \in 1..e.n |-> RAbs(e.lo)])
    [] e.op = "conv" -> e.r = e.a                     \* exactly representable corners
    [] e.op = "eqeps" ->                              \* is_equal(a, b, eps)
         LET d == RMaxAbs(VSub(e.a.min, e.b.min) \o VSub(e.a.max, e.b.max))
             l == e.a.min \o e.a.max \o e.b.min \o e.b.max
         IN (Near(d, e.eps, TolOf(e.p, RMaxAbs(l))) /\ e.eps # RZero /\ ~SimpleV(e.p, l)) \/ e.r = RLe(d, e.eps)
    [] e.op = "mergeall" ->
         /\ e.r = BHull([i \in 1..Len(e.l) |-> BoxAt(e.l[i], e.l[i])])
         /\ e.got = BHull([i \in 1..Len(e.l) |-> BoxAt(VNeg(e.l[i]), VNeg(e.l[i]))])
(* the builder: its state is the sequence of boxes that were added (a point   *)
(* is the box with both corners at it)                                        *)
BuilderInit == <<>>
Items(e) == CASE e.op = "addp" -> << BoxAt(e.q, e.q) >>
              [] e.op = "addb" -> << e.b >>
              [] e.op = "addr" -> [i \in 1..Len(e.l) |-> BoxAt(e.l[i], e.l[i])]
              [] e.op = "addg" -> [i \in 1..Len(e.l) |-> BoxAt(VNeg(e.l[i]), VNeg(e.l[i]))]
              [] e.op = "addbs" -> e.l
              [] e.op = "look" -> <<>>
BuilderNext(st, e) == LET s == st \o Items(e) IN IF s = <<>> THEN s ELSE << BHull(s) >>
PostBuilder(st, e) ==
  LET s == BuilderNext(st, e) IN
  /\ e.init = (s # <<>>)
  /\ e.r = (IF s = <<>> THEN BOrigin(e.n) ELSE s[1])
=============================================================================

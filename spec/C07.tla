--------------------------------- MODULE C07 ---------------------------------
(* Angles: unit conversion, normalisation and measurement.                    *)
EXTENDS Trig

U(p) == IF p = "d" THEN RPow2(-48) ELSE RPow2(-20)
Tiny(p) == IF p = "d" THEN RPow2(-1060) ELSE RPow2(-140)
A(p) == IF p = "d" THEN RPow2(-24) ELSE RPow2(-9)       \* arc cosine close to its ends
Period(e) == IF e.op = "normdeg" THEN RInt(360) ELSE RTwoPi

(* r in [0, period) and congruent to a: r - a is within tolerance of a        *)
(* multiple of the period (the distance is circular: 0 and the period are     *)
(* the same angle). Conversions beyond 2^20 periods carry no information.     *)
Congruent(r, a, per, tol) ==
  LET q == RDiv(RSub(r, a), per) IN RLe(RMul(per, RAbs(RSub(q, RFloor(RAdd(q, RHalf))))), tol)
Normalised(e) ==
  LET per == Period(e) lim == IF e.op = "normdeg" THEN RInt(360) ELSE RRnd(RTwoPi, IF e.p = "d" THEN 53 ELSE 24) IN
  /\ RLe(RZero, e.r) /\ RLt(e.r, lim)
  /\ RLe(RAbs(e.a), RMul(per, RPow2(20))) =>
       Congruent(e.r, e.a, per, RMul(RMul(U(e.p), RInt(8)), RAdd(RAbs(e.a), per)))

PostC07(e) ==
  CASE e.op = "rad" -> LET x == RDiv(RMul(e.a, RPi), RInt(180)) IN Near(e.r, x, RAdd(Tiny(e.p), RMul(U(e.p), RAbs(x))))
    [] e.op = "deg" -> LET x == RDiv(RMul(e.a, RInt(180)), RPi) IN Near(e.r, x, RAdd(Tiny(e.p), RMul(U(e.p), RAbs(x))))
    [] e.op = "normdeg" -> Normalised(e)
    [] e.op = "normrad" -> Normalised(e)
    [] e.op = "consts" -> /\ Near(e.pi, RPi, U(e.p)) /\ Near(e.two, RTwoPi, U(e.p)) /\ Near(e.half, RDiv(RPi, RTwo), U(e.p))
                          /\ Near(e.quarter, RDiv(RPi, RInt(4)), U(e.p)) /\ Near(e.th, RDiv(RMul(RInt(3), RPi), RTwo), U(e.p))
                          /\ Near(e.e, RNum("2.71828182845904523536028747135266249775"), U(e.p))
                          /\ Near(e.az, RNum("0.001"), RPow2(-30)) /\ Near(e.ps, RNum("0.0001"), RPow2(-30))
                          /\ Near(e.ce, RNum("0.001"), RPow2(-30)) /\ Near(e.co, RNum("0.00001"), RPow2(-40))
                          /\ Near(e.an, RNum("0.00000001"), RPow2(-48))
    (* measure_angle(v, axis, up): the counter clockwise angle (about up) from *)
    (* axis to v, for unit vectors v, axis perpendicular to the unit vector up *)
    [] e.op = "measure" ->
         LET s == VDot(VCross(e.axis, e.a), e.up) IN
         /\ RLe(RNeg(U(e.p)), e.r) /\ RLe(e.r, RAdd(RTwoPi, U(e.p)))
         /\ Near(CosR(e.r), VDot(e.a, e.axis), RMul(RInt(16), U(e.p)))
         /\ Near(SinR(e.r), s, A(e.p))
         /\ (e.a = e.axis => RLe(e.r, A(e.p)))                \* no turn is 0, not a full turn
=============================================================================

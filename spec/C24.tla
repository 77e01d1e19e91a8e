--------------------------------- MODULE C24 ---------------------------------
(* Texts of vectors, matrices and the shapes built from them. A parsed value   *)
(* is an empty or one-element sequence.                                        *)
EXTENDS Text
Large(p) == IF p = "d" THEN RPow2(1023) ELSE RPow2(127)
Tiny(p)  == IF p = "d" THEN RPow2(-1021) ELSE RPow2(-125)
(* r is what the literal's exact value v becomes: rounded to double, then to the type *)
ReadsAs(p, r, v) ==
  IF v = RZero THEN r = RZero
  ELSE IF RLt(Large(p), RAbs(v)) THEN (RIsInf(r) \/ RLt(RPow2(100), RAbs(r))) /\ RSgn(r) = RSgn(v)
  ELSE IF RLt(RAbs(v), Tiny(p)) THEN RLe(RAbs(r), RPow2(-120)) /\ RSgn(r) # -RSgn(v)
  ELSE r = (IF p = "d" THEN RRnd(v, 53) ELSE RRnd(RRnd(v, 53), 24))
ReadVec(p, r, vs) == Len(r) = Len(vs) /\ \A i \in 1..Len(r) : ReadsAs(p, r[i], vs[i])
(* the first n values, if there are that many *)
Reads(p, r, vs, n) == IF Len(vs) < n THEN r = <<>> ELSE Len(r) = 1 /\ ReadVec(p, r[1], SubSeq(vs, 1, n))
RECURSIVE Flat(_, _)
Flat(m, i) == IF i > Len(m) THEN <<>> ELSE m[i] \o Flat(m, i + 1)
ReadMat(p, r, vs, R, C) == IF Len(vs) < R * C THEN r = <<>> ELSE Len(r) = 1 /\ ReadVec(p, Flat(r[1], 1), SubSeq(vs, 1, R * C))
Groups(vs, n) == [g \in 1..(Len(vs) \div n) |-> SubSeq(vs, (g - 1) * n + 1, g * n)]
ReadAll(p, r, gs) == Len(r) = Len(gs) /\ \A i \in 1..Len(r) : ReadVec(p, r[i], gs[i])

RECURSIVE Join(_, _)
Join(ts, i) == IF i > Len(ts) THEN "" ELSE IF i = Len(ts) THEN ts[i] ELSE ts[i] \o " " \o Join(ts, i + 1)
CharsOf(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
(* a component's own text reads as the component to the printed number of digits *)
Prints(t, x, digits) == LET v == FloatVal(t) IN
  IsFloat(t) /\ RLe(RAbs(RSub(v, x)), RMul(RMax(RAbs(x), RAbs(v)), RMul(RInt(5), RPow10(-digits))))

PostC24(e) ==
  CASE e.op = "parse" ->
         LET vs == Values(e.t, Blank) IN
         /\ Reads(e.p, e.r1, vs, 1) /\ Reads(e.p, e.r2, vs, 2) /\ Reads(e.p, e.r3, vs, 3) /\ Reads(e.p, e.r4, vs, 4)
         /\ ReadMat(e.p, e.m22, vs, 2, 2) /\ ReadMat(e.p, e.m23, vs, 2, 3) /\ ReadMat(e.p, e.m32, vs, 3, 2)
         /\ Reads(e.p, e.r5, vs, 5) /\ ReadMat(e.p, e.m11, vs, 1, 1) /\ ReadMat(e.p, e.m13, vs, 1, 3) /\ ReadMat(e.p, e.m31, vs, 3, 1)
         /\ ReadMat(e.p, e.m33, vs, 3, 3) /\ ReadMat(e.p, e.m44, vs, 4, 4)
    [] e.op = "all" ->
         LET vs == Values(e.t, Sep) IN
         /\ ReadAll(e.p, e.r, Groups(vs, e.n))
    [] e.op = "write" ->
         LET n == Len(e.v) IN
         /\ e.vt = Join(e.ct, 1)
         /\ \A i \in 1..n : Prints(CharsOf(e.ct[i]), e.v[i], e.digits)
         /\ e.digits >= e.full => e.back = <<e.v>>
    [] e.op = "writeMat" ->
         /\ e.mt = Join(e.ct, 1) /\ Len(e.ct) = Len(e.m) * Len(e.m[1])
         /\ LET f == Flat(e.m, 1) IN \A i \in 1..Len(f) : Prints(CharsOf(e.ct[i]), f[i], e.digits)
         /\ e.digits >= e.full => e.back = <<e.m>>
    [] e.op = "shapes" ->       \* a, b: the texts of two vectors; s: the text of a number
         /\ e.box = "{ min: (" \o e.a \o "), max: (" \o e.b \o ") }"
         /\ e.line = "{ point: (" \o e.a \o "), direction: (" \o e.b \o ") }"
         /\ e.ray = "{ origin: (" \o e.a \o "), direction: (" \o e.b \o ") }"
         /\ e.plane = "{ normal: (" \o e.a \o "), distance: " \o e.s \o " }"
=============================================================================

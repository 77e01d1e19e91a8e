--------------------------------- MODULE C27 ---------------------------------
(* x: value, v: approximate value, eps: its tolerance. The names ending in 2   *)
(* are the operators with the approximate value on the left.                   *)
EXTENDS Vec
Bits27(p) == IF p = "d" THEN 53 ELSE 24
Fits(p, a) == p = "i" \/ ~RIsFin(a) \/ RRnd(a, Bits27(p)) = a
(* right at epsilon the answer is determined if the sums are exact *)
Tol27(p, x, v, eps) ==
  IF \A a \in {RSub(v, eps), RAdd(v, eps), RSub(x, eps), RAdd(x, eps), RSub(x, v)} : Fits(p, a) THEN RZero
  ELSE IF ~RIsFin(x) THEN RZero
  ELSE RMul(RPow2(2 - Bits27(p)), RAdd(eps, RAdd(RAbs(x), RAbs(v))))
(* the possible results of comparing x with v + s * eps *)
Cmp27(p, x, v, eps, s) ==
  LET b == RAdd(v, RMul(RInt(s), eps)) t == Tol27(p, x, v, eps)
  IN (IF x = b THEN {0} ELSE IF RLt(x, b) THEN {-1} ELSE {1})
     \cup (IF t # RZero /\ RLe(RAbs(RSub(x, b)), t) THEN {-1, 0, 1} ELSE {})
RECURSIVE Lex27(_, _, _, _, _, _)
Lex27(p, x, v, eps, s, i) ==
  IF i > Len(x) THEN {0}
  ELSE LET c == Cmp27(p, x[i], v[i], eps, s)
       IN (c \ {0}) \cup (IF 0 \in c THEN Lex27(p, x, v, eps, s, i + 1) ELSE {})
(* the possible answers to "every component is within epsilon" *)
Eq27(p, x, v, eps) ==
  LET In(i) == {a \in {TRUE, FALSE} : \E lo \in Cmp27(p, x[i], v[i], eps, -1) : \E hi \in Cmp27(p, x[i], v[i], eps, 1) : a = (lo >= 0 /\ hi <= 0)}
  IN (IF \A i \in 1..Len(x) : TRUE \in In(i) THEN {TRUE} ELSE {})
     \cup (IF \E i \in 1..Len(x) : FALSE \in In(i) THEN {FALSE} ELSE {})
EqOk(e, x, v) == /\ e.eq \in Eq27(e.p, x, v, e.eps) /\ e.eq2 = e.eq
                 /\ e.ne = ~e.eq /\ e.ne2 = ~e.eq
OrdOk(e, x, v) ==
  /\ \E c \in Lex27(e.p, x, v, e.eps, -1, 1) : e.lt = (c < 0)
  /\ \E c \in Lex27(e.p, x, v, e.eps, -1, 1) : e.ge = (c >= 0)
  /\ \E c \in Lex27(e.p, x, v, e.eps, 1, 1) : e.gt = (c > 0)
  /\ \E c \in Lex27(e.p, x, v, e.eps, 1, 1) : e.le = (c <= 0)
  /\ \E c \in Lex27(e.p, x, v, e.eps, 1, 1) : e.lt2 = (c > 0)
  /\ \E c \in Lex27(e.p, x, v, e.eps, 1, 1) : e.ge2 = (c <= 0)
  /\ \E c \in Lex27(e.p, x, v, e.eps, -1, 1) : e.gt2 = (c < 0)
  /\ \E c \in Lex27(e.p, x, v, e.eps, -1, 1) : e.le2 = (c >= 0)
Flat(m) == [n \in 1..(Len(m) * Len(m[1])) |-> m[((n - 1) \div Len(m[1])) + 1][((n - 1) % Len(m[1])) + 1]]
PostC27(e) ==
  CASE e.op = "num" -> EqOk(e, <<e.x>>, <<e.v>>) /\ OrdOk(e, <<e.x>>, <<e.v>>)
    [] e.op = "default" -> EqOk(e, <<e.x>>, <<e.v>>) /\ OrdOk(e, <<e.x>>, <<e.v>>)
    [] e.op = "vec" -> EqOk(e, e.x, e.v) /\ OrdOk(e, e.x, e.v)
    [] e.op = "mat" -> EqOk(e, Flat(e.x), Flat(e.v))
    [] e.op = "line" -> EqOk(e, e.x, e.v)
    [] e.op = "list" -> /\ e.ne = ~e.eq /\ e.ne2 = ~e.eq /\ e.eq2 = e.eq
                        /\ IF Len(e.x) # Len(e.v) THEN ~e.eq
                           ELSE e.eq \in Eq27(e.p, e.x, e.v, e.eps)
    [] e.op = "text" -> e.s = e.t
=============================================================================

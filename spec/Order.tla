-------------------------------- MODULE Order --------------------------------
(***************************************************************************)
(* The order of vectors, ranges of vectors, segments and matrices:         *)
(* lexicographic by component, components equal within epsilon, a NaN      *)
(* component after every number and equal to another NaN.                  *)
(*                                                                         *)
(* The result of a comparison is a set: the exact answer, and with a       *)
(* positive epsilon also the neighbouring one when the difference is       *)
(* within rounding (tol) of epsilon.                                       *)
(***************************************************************************)
EXTENDS Vec

Near0(x, tol) == RLe(RAbs(x), tol)

Cmp1(a, b, eps, tol) ==
  IF RIsNaN(a) /\ RIsNaN(b) THEN {0}
  ELSE IF RIsNaN(b) THEN {-1}
  ELSE IF RIsNaN(a) THEN {1}
  ELSE LET lo == RSub(b, eps) hi == RAdd(b, eps) IN
       (IF RLt(a, lo) \/ (eps # RZero /\ Near0(RSub(a, lo), tol)) THEN {-1} ELSE {})
       \cup (IF RLt(hi, a) \/ (eps # RZero /\ Near0(RSub(a, hi), tol)) THEN {1} ELSE {})
       \cup (IF (~RLt(a, lo) /\ ~RLt(hi, a)) \/ (eps # RZero /\ (Near0(RSub(a, lo), tol) \/ Near0(RSub(a, hi), tol)))
             THEN {0} ELSE {})

RECURSIVE LexFrom(_, _, _, _, _)
LexFrom(a, b, eps, tol, i) ==
  IF i > Len(a) THEN {0}
  ELSE LET c == Cmp1(a[i], b[i], eps, tol)
       IN (c \ {0}) \cup (IF 0 \in c THEN LexFrom(a, b, eps, tol, i + 1) ELSE {})
Lex(a, b, eps, tol) == LexFrom(a, b, eps, tol, 1)

(* ranges: element by element, a proper prefix comes first *)
RECURSIVE LexRange(_, _, _, _, _)
LexRange(x, y, eps, tol, i) ==
  IF i > Len(x) /\ i > Len(y) THEN {0}
  ELSE IF i > Len(x) THEN {-1}
  ELSE IF i > Len(y) THEN {1}
  ELSE LET c == Lex(x[i], y[i], eps, tol)
       IN (c \ {0}) \cup (IF 0 \in c THEN LexRange(x, y, eps, tol, i + 1) ELSE {})

LexExact(a, b) == CHOOSE r \in Lex(a, b, RZero, RZero) : TRUE

(* the six comparison operators agree with the three-way result *)
OpsAgree(c, e) == /\ e.eq <=> c = 0
                  /\ e.ne <=> c # 0
                  /\ e.lt <=> c < 0
                  /\ e.le <=> c <= 0
                  /\ e.gt <=> c > 0
                  /\ e.ge <=> c >= 0

CmpTol(e, S) == IF e.p = "i" THEN RZero ELSE RMul(IF e.p = "d" THEN RPow2(-50) ELSE RPow2(-21), S)
FinMax(s) == RMaxAbs([i \in 1..Len(s) |-> IF RIsFin(s[i]) THEN s[i] ELSE RZero])
FinMaxVs(vs) == RMaxAbs([i \in 1..Len(vs) |-> FinMax(vs[i])])
=============================================================================

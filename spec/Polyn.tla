-------------------------------- MODULE Polyn --------------------------------
(* Polynomials as sequences of coefficients, the constant one first, and the   *)
(* number of their distinct real roots in an interval by Sturm's theorem.      *)
EXTENDS Vec
PCoef(f, i)  == IF i \in 1..Len(f) THEN f[i] ELSE RZero
RECURSIVE PTrim(_)
PTrim(f)     == IF Len(f) > 0 /\ f[Len(f)] = RZero THEN PTrim(SubSeq(f, 1, Len(f) - 1)) ELSE f
PAdd(f, g)   == [i \in 1..Max2(Len(f), Len(g)) |-> RAdd(PCoef(f, i), PCoef(g, i))]
PScale(f, s) == [i \in 1..Len(f) |-> RMul(f[i], s)]
PProd(f, g)  == [k \in 1..(Len(f) + Len(g) - 1) |->
                   RSum([i \in 1..Len(f) |-> RMul(f[i], PCoef(g, k - i + 1))])]
RECURSIVE PEvalFrom(_, _, _)
PEvalFrom(f, x, i) == IF i > Len(f) THEN RZero ELSE RAdd(f[i], RMul(x, PEvalFrom(f, x, i + 1)))
PEval(f, x)  == PEvalFrom(f, x, 1)
PDer(f)      == [i \in 1..(Len(f) - 1) |-> RMul(RInt(i), f[i + 1])]
(* remainder of f divided by g (both trimmed, g # 0) *)
RECURSIVE PRem(_, _)
PRem(f, g) ==
  IF Len(f) < Len(g) THEN f
  ELSE LET q == RDiv(f[Len(f)], g[Len(g)]) k == Len(f) - Len(g)
       IN PRem(PTrim(SubSeq([i \in 1..Len(f) |-> RSub(f[i], RMul(q, PCoef(g, i - k)))], 1, Len(f) - 1)), g)
RECURSIVE PChain(_, _)
PChain(f, g) == IF g = <<>> THEN <<f>> ELSE <<f>> \o PChain(g, PTrim(PScale(PRem(f, g), RInt(-1))))
Sturm(f) == LET t == PTrim(f) IN PChain(t, PTrim(PDer(t)))
SgnAt(f, x) == IF x = RInf THEN RSgn(f[Len(f)])
               ELSE IF x = RNInf THEN (IF Len(f) % 2 = 1 THEN RSgn(f[Len(f)]) ELSE -RSgn(f[Len(f)]))
               ELSE RSgn(PEval(f, x))
RECURSIVE Variations(_, _, _, _)
Variations(c, x, i, last) ==
  IF i > Len(c) THEN 0
  ELSE LET s == SgnAt(c[i], x) IN
       IF s = 0 THEN Variations(c, x, i + 1, last)
       ELSE (IF last # 0 /\ s # last THEN 1 ELSE 0) + Variations(c, x, i + 1, s)
(* distinct real roots in (a, b]; f is not zero *)
Roots(f, a, b) == LET c == Sturm(f) IN Variations(c, a, 1, 0) - Variations(c, b, 1, 0)
=============================================================================

-------------------------------- MODULE Trig --------------------------------
(* Sine and cosine of rationals to about 2^-90, by Taylor series.             *)
EXTENDS Vec
LOCAL Prec == 110
RPi    == RNum("3.14159265358979323846264338327950288419716939937510582097494459")
RTwoPi == RMul(RTwo, RPi)
(* representative of x modulo 2 pi in [-pi, pi] *)
Reduce(x) == RSub(x, RMul(RTwoPi, RFloor(RAdd(RDiv(x, RTwoPi), RHalf))))
RECURSIVE TaylorSum(_, _, _, _, _)
TaylorSum(x2, term, k, acc, n) ==      \* term is the current one, k its degree
  IF n = 0 THEN acc
  ELSE LET t == RRnd(RNeg(RDiv(RMul(term, x2), RInt((k + 1) * (k + 2)))), Prec)
       IN TaylorSum(x2, t, k + 2, RAdd(acc, t), n - 1)
CosR(x) == LET y == RRnd(Reduce(x), Prec) IN RRnd(TaylorSum(RSq(y), ROne, 0, ROne, 20), 100)
SinR(x) == LET y == RRnd(Reduce(x), Prec) IN RRnd(TaylorSum(RSq(y), y, 1, y, 20), 100)
=============================================================================

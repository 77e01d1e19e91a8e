------------------------------- MODULE MC_Rat -------------------------------
(* Self test of the exact arithmetic: evaluated by TLC at setup time.      *)
EXTENDS Rat, Integers, Sequences, TLC
G == -6..6
D == {1, 2, 3, 4, 5, 7}
Q == {RFrac(i, j) : i \in G, j \in D}
Big == RMul(RPow2(100), RFrac(1, 3))
ASSUME \A i, j \in G : RAdd(RInt(i), RInt(j)) = RInt(i + j) /\ RMul(RInt(i), RInt(j)) = RInt(i * j)
ASSUME \A i, j \in G : (RLt(RInt(i), RInt(j)) <=> i < j) /\ (RLe(RInt(i), RInt(j)) <=> i <= j)
ASSUME \A a, b \in Q : RAdd(a, b) = RAdd(b, a) /\ RMul(a, b) = RMul(b, a) /\ RSub(a, b) = RAdd(a, RNeg(b))
ASSUME \A a, b \in Q : b # RZero => RMul(RDiv(a, b), b) = a
ASSUME \A a, b \in Q : (RLt(a, b) <=> RSgn(RSub(a, b)) = -1) /\ (REq(a, b) <=> a = b)
ASSUME \A i \in G, j \in D : RMul(RFrac(i, j), RInt(j)) = RInt(i)
ASSUME \A i \in G, j \in D : RFloor(RFrac(i, j)) = RInt(i \div j)
ASSUME \A a \in Q : RAbs(a) = RMax(a, RNeg(a)) /\ RNeg(RNeg(a)) = a
ASSUME \A a, b, c \in {RFrac(i, j) : i \in -3..3, j \in {1, 2, 3}} : RMul(a, RAdd(b, c)) = RAdd(RMul(a, b), RMul(a, c))
ASSUME RSub(RAdd(Big, ROne), Big) = ROne
ASSUME RNum("0x1.8p+3") = RInt(12) /\ RNum("-0x1p-2") = RFrac(-1, 4) /\ RNum("1.25") = RFrac(5, 4)
ASSUME RNum("nan") = RNaN /\ RNum("inf") = RInf /\ RNum("-inf") = RNInf /\ RNum("1e2") = RInt(100)
ASSUME ~RLt(RNaN, ROne) /\ ~RLt(ROne, RNaN) /\ ~REq(RNaN, RNaN) /\ RLt(Big, RInf) /\ RLt(RNInf, Big)
ASSUME RSub(RInf, RInf) = RNaN /\ RDiv(ROne, RZero) = RInf /\ RDiv(ROne, RInf) = RZero
ASSUME \A a \in Q : LET r == RSqrt(RAbs(a), 60) IN RLe(RSq(r), RAbs(a)) /\ RLe(RAbs(a), RSq(RAdd(r, RPow2(-50))))
ASSUME RRnd(RInt(9), 3) = RInt(8) /\ RRnd(RInt(11), 3) = RInt(12) /\ RRnd(RInt(-13), 3) = RInt(-12) /\ RRnd(RFrac(7, 4), 2) = RTwo
ASSUME \A a \in Q : RLe(RAbs(RSub(RRnd(a, 40), a)), RPow2(-35))
ASSUME RDot(<<ROne, RTwo>>, <<RInt(3), RInt(4)>>) = RInt(11) /\ RDotAbs(<<ROne, RTwo>>, <<RInt(3), RInt(-4)>>) = RInt(11)
ASSUME RMaxAbs(<<RInt(-3), RTwo>>) = RInt(3) /\ RSum(<<ROne, RTwo, RHalf>>) = RFrac(7, 2)
ASSUME RLog2(RInt(8)) = 3 /\ RLog2(RInt(-7)) = 2 /\ RLog2(RFrac(1, 3)) = -2 /\ RLog2(RFrac(1, 4)) = -2
ASSUME RToInt(RFrac(8, 2)) = 4
VARIABLE x
Init == x = RFrac(1, 3)
Next == x' = RMul(x, RFrac(3, 2)) /\ RLt(x, RPow2(60))
Grows == RLe(RFrac(1, 3), x)
=============================================================================

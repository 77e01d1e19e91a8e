------------------------------ MODULE MC_Trig -------------------------------
(* Self test of the trigonometric functions of the specification.             *)
EXTENDS Trig
T == {RDiv(RMul(RPi, RInt(i)), RInt(12)) : i \in -24..24} \cup {RFrac(i, 7) : i \in -30..30}
Small == RPow2(-80)
ASSUME \A x \in T : Near(RAdd(RSq(SinR(x)), RSq(CosR(x))), ROne, Small)
ASSUME \A x \in T : Near(CosR(RMul(RTwo, x)), RSub(RMul(RTwo, RSq(CosR(x))), ROne), Small)
ASSUME \A x \in T : Near(SinR(RAdd(x, RDiv(RPi, RTwo))), CosR(x), Small)
ASSUME Near(SinR(RDiv(RPi, RInt(6))), RHalf, Small) /\ Near(CosR(RPi), RNeg(ROne), Small)
ASSUME Near(SinR(RNum("1")), RNum("0.84147098480789650665250232163029899962256306079837"), Small)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================

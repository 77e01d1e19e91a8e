--------------------------------- MODULE Rat ---------------------------------
(***************************************************************************)
(* Exact rational arithmetic extended with the IEEE non-finite values.     *)
(* Every operator whose body is RUndefined is evaluated by java/Rat.java   *)
(* (TLC loads a class with the module's name); the axioms the operators    *)
(* have to satisfy are assumed at the end and evaluated by TLC on a grid   *)
(* before every run (RatSelfTest in MC_Rat.tla).                           *)
(*                                                                         *)
(* Comparisons are the IEEE ones: RLt, RLe and REq are FALSE when an       *)
(* operand is NaN. TLA+ equality on rationals is identity of values.       *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

RUndefined == CHOOSE x : x \notin {}

RNaN  == <<2>>
RInf  == <<3>>
RNInf == <<-3>>

RInt(i)      == RUndefined     \* the rational i
RFrac(i, j)  == RUndefined     \* i / j
RPow2(e)     == RUndefined     \* 2^e
RPow10(e)    == RUndefined     \* 10^e
RNum(s)      == RUndefined     \* literal: decimal or C hex float
RAdd(a, b)   == RUndefined
RSub(a, b)   == RUndefined
RMul(a, b)   == RUndefined
RDiv(a, b)   == RUndefined
RNeg(a)      == RUndefined
RAbs(a)      == RUndefined
RSgn(a)      == RUndefined     \* -1, 0, 1; 2 for NaN
RLt(a, b)    == RUndefined
RLe(a, b)    == RUndefined
REq(a, b)    == RUndefined
RIsNaN(a)    == RUndefined
RIsFin(a)    == RUndefined
RMin(a, b)   == RUndefined
RMax(a, b)   == RUndefined
RFloor(a)    == RUndefined
RToInt(a)    == RUndefined     \* TLA+ integer (must be a 32 bit integer)
RLog2(a)     == RUndefined     \* floor(log2 |a|), a finite and not zero
RRnd(a, b)   == RUndefined     \* a rounded to b significant bits, halves to even
RSqrt(a, b)  == RUndefined     \* square root rounded down to b significant bits
RSum(s)      == RUndefined     \* sum of a sequence
RDot(s, t)   == RUndefined     \* sum of products
RDotAbs(s,t) == RUndefined     \* sum of absolute products
RMaxAbs(s)   == RUndefined     \* largest absolute value of a sequence
RLoad(f)     == RUndefined     \* sequence of JSON values, one per line of file f
REmit(f, v)  == RUndefined     \* TRUE; appends the leaves of v to file f as one line
REmitR(f, v) == RUndefined     \* the same, where the leaves are rationals
RShow(a)     == RUndefined     \* decimal text, for messages only

RZero == RInt(0)
ROne  == RInt(1)
RTwo  == RInt(2)
RHalf == RFrac(1, 2)
RGt(a, b) == RLt(b, a)
RGe(a, b) == RLe(b, a)
RSq(a)    == RMul(a, a)
RIsInf(a) == ~RIsFin(a) /\ ~RIsNaN(a)
RIsInt(a) == RIsFin(a) /\ RFloor(a) = a
RCeil(a)  == RNeg(RFloor(RNeg(a)))
RTrunc(a) == IF RSgn(a) < 0 THEN RCeil(a) ELSE RFloor(a)
=============================================================================

-------------------------------- MODULE Text ---------------------------------
(***************************************************************************)
(* Texts are sequences of one-character strings. A text is cut into tokens *)
(* at the separating characters; the value of a token is the value of its  *)
(* longest prefix that is a decimal floating point literal, 0 if there is  *)
(* none.                                                                   *)
(***************************************************************************)
EXTENDS Vec
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitSet == {Digits[i] : i \in 1..10}
DigitOf(c) == (CHOOSE d \in 1..10 : Digits[d] = c) - 1
Blank == {" ", "\t", "\n", "\r", "(", ")"}
Sep   == Blank \cup {",", ";"}
Signs == {"+", "-"}
Expo  == {"e", "E"}

RECURSIVE TokensFrom(_, _, _, _)
TokensFrom(t, B, i, cur) ==
  IF i > Len(t) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF t[i] \in B THEN (IF cur = <<>> THEN TokensFrom(t, B, i + 1, <<>>) ELSE <<cur>> \o TokensFrom(t, B, i + 1, <<>>))
  ELSE TokensFrom(t, B, i + 1, Append(cur, t[i]))
Tokens(t, B) == TokensFrom(t, B, 1, <<>>)

(* the parts of a literal: sign, mantissa, exponent *)
SignLen(s)  == IF s # <<>> /\ s[1] \in Signs THEN 1 ELSE 0
ExpAt(s)    == LET E == {i \in 1..Len(s) : s[i] \in Expo} IN
               IF E = {} THEN Len(s) + 1 ELSE CHOOSE i \in E : \A j \in E : i <= j
Mant(s)     == SubSeq(s, SignLen(s) + 1, ExpAt(s) - 1)
ExpPart(s)  == SubSeq(s, ExpAt(s) + 1, Len(s))
Count(s, C) == Cardinality({i \in 1..Len(s) : s[i] \in C})
IsDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in DigitSet
IsMant(s)   == /\ \A i \in 1..Len(s) : s[i] \in DigitSet \cup {"."}
               /\ Count(s, {"."}) <= 1 /\ Count(s, DigitSet) >= 1
IsFloat(s)  == /\ IsMant(Mant(s))
               /\ ExpAt(s) <= Len(s) => IsDigits(SubSeq(ExpPart(s), SignLen(ExpPart(s)) + 1, Len(ExpPart(s))))
RECURSIVE WholeFrom(_, _, _)
WholeFrom(s, i, acc) == IF i > Len(s) THEN acc
                        ELSE WholeFrom(s, i + 1, IF s[i] = "." THEN acc ELSE RAdd(RMul(acc, RInt(10)), RInt(DigitOf(s[i]))))
Whole(s) == WholeFrom(s, 1, RZero)
Fract(s) == LET D == {i \in 1..Len(s) : s[i] = "."} IN IF D = {} THEN 0 ELSE Len(s) - (CHOOSE i \in D : TRUE)
IsNeg(s) == s # <<>> /\ s[1] = "-"
ExpVal(s) == IF ExpAt(s) > Len(s) THEN 0
             ELSE LET p == ExpPart(s) v == RToInt(Whole(SubSeq(p, SignLen(p) + 1, Len(p)))) IN IF IsNeg(p) THEN -v ELSE v
FloatVal(s) == LET v == RMul(Whole(Mant(s)), RPow10(ExpVal(s) - Fract(Mant(s)))) IN IF IsNeg(s) THEN RNeg(v) ELSE v
PrefixLen(s) == LET K == {k \in 1..Len(s) : IsFloat(SubSeq(s, 1, k))} IN
                IF K = {} THEN 0 ELSE CHOOSE k \in K : \A j \in K : j <= k
Value(s) == IF PrefixLen(s) = 0 THEN RZero ELSE FloatVal(SubSeq(s, 1, PrefixLen(s)))
Values(t, B) == LET k == Tokens(t, B) IN [i \in 1..Len(k) |-> Value(k[i])]
=============================================================================

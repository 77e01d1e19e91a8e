------------------------------- MODULE MC_Parse -------------------------------
(***************************************************************************)
(* Design model of reading numbers: an automaton that takes one character  *)
(* per step, over all texts of length L. Checked: when the text is used up *)
(* the automaton has the values Text assigns to its tokens, no more and no *)
(* fewer. The texts are written out (as indices into Alphabet) and         *)
(* replayed, on their own and as a view into a longer text.                *)
(***************************************************************************)
EXTENDS Text
CONSTANTS L, OutFile
Alphabet == <<"1", "0", ".", "-", "e", " ", "(">>
VARIABLES text, pos, ph, num, out
vars == <<text, pos, ph, num, out>>
(* num: what has been read of the current number; the last valid value is in val *)
NoNum == [neg |-> FALSE, whole |-> RZero, fr |-> 0, ex |-> 0, exneg |-> FALSE, val |-> RZero, any |-> FALSE]
Init == /\ text \in [1..L -> 1..Len(Alphabet)] /\ pos = 1 /\ ph = "blank" /\ num = NoNum /\ out = <<>>
Ch == Alphabet[text[pos]]
Of(n, e) == LET v == RMul(n.whole, RPow10(e - n.fr)) IN IF n.neg THEN RNeg(v) ELSE v
Digit(n, c) == [n EXCEPT !.whole = RAdd(RMul(n.whole, RInt(10)), RInt(DigitOf(c))), !.any = TRUE]
Mark(n) == [n EXCEPT !.val = Of(n, 0)]
Start(c) ==   \* the first character of a token
  IF c \in Signs THEN <<"sign", [NoNum EXCEPT !.neg = (c = "-")]>>
  ELSE IF c \in DigitSet THEN <<"int", Mark(Digit(NoNum, c))>>
  ELSE IF c = "." THEN <<"frac", NoNum>>
  ELSE <<"rest", NoNum>>
Step(p, n, c) ==
  CASE p = "sign" -> IF c \in DigitSet THEN <<"int", Mark(Digit(n, c))>> ELSE IF c = "." THEN <<"frac", n>> ELSE <<"rest", n>>
    [] p = "int"  -> IF c \in DigitSet THEN <<"int", Mark(Digit(n, c))>>
                     ELSE IF c = "." THEN <<"frac", n>> ELSE IF c \in Expo THEN <<"exp", n>> ELSE <<"rest", n>>
    [] p = "frac" -> IF c \in DigitSet THEN <<"frac", Mark([Digit(n, c) EXCEPT !.fr = n.fr + 1])>>
                     ELSE IF c \in Expo /\ n.any THEN <<"exp", n>> ELSE <<"rest", n>>
    [] p = "exp"  -> IF c \in Signs THEN <<"exps", [n EXCEPT !.exneg = (c = "-")]>>
                     ELSE IF c \in DigitSet THEN <<"expd", [n EXCEPT !.ex = DigitOf(c), !.val = Of(n, DigitOf(c))]>> ELSE <<"rest", n>>
    [] p = "exps" -> IF c \in DigitSet
                     THEN <<"expd", [n EXCEPT !.ex = DigitOf(c), !.val = Of(n, IF n.exneg THEN -DigitOf(c) ELSE DigitOf(c))]>> ELSE <<"rest", n>>
    [] p = "expd" -> IF c \in DigitSet
                     THEN LET x == 10 * n.ex + DigitOf(c) IN <<"expd", [n EXCEPT !.ex = x, !.val = Of(n, IF n.exneg THEN -x ELSE x)]>>
                     ELSE <<"rest", n>>
    [] p = "rest" -> <<"rest", n>>
Skip == /\ pos <= L /\ ph = "blank" /\ Ch \in Blank /\ pos' = pos + 1 /\ UNCHANGED <<text, ph, num, out>>
Begin == /\ pos <= L /\ ph = "blank" /\ Ch \notin Blank
         /\ ph' = Start(Ch)[1] /\ num' = Start(Ch)[2] /\ pos' = pos + 1 /\ UNCHANGED <<text, out>>
Take == /\ pos <= L /\ ph # "blank" /\ Ch \notin Blank
        /\ ph' = Step(ph, num, Ch)[1] /\ num' = Step(ph, num, Ch)[2] /\ pos' = pos + 1 /\ UNCHANGED <<text, out>>
End == /\ ph # "blank" /\ (IF pos <= L THEN Ch \in Blank ELSE TRUE)
       /\ out' = Append(out, num.val) /\ ph' = "blank" /\ num' = NoNum /\ UNCHANGED <<text, pos>>
Next == Skip \/ Begin \/ Take \/ End
Chars == [i \in 1..L |-> Alphabet[text[i]]]
Right == pos > L /\ ph = "blank" => out = Values(Chars, Blank)
Emit == (pos = 1 /\ ph = "blank") => REmit(OutFile, <<L, text>>)
=============================================================================

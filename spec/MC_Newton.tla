------------------------------ MODULE MC_Newton -------------------------------
(***************************************************************************)
(* Design model of the compile-time square root: Newton's iteration in a   *)
(* floating point format with Bits significant bits (rounding to nearest,  *)
(* halves to even), over all numbers of the format in [1, 4) scaled by     *)
(* powers of four. Checked: it reaches a fixed point for every number      *)
(* (it terminates), from above, and the fixed point is the root up to one  *)
(* unit in the last place. The numbers are written out and replayed.       *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, TLC
CONSTANTS Bits, Exps, OutFile
VARIABLES x, cur, prev, n
vars == <<x, cur, prev, n>>
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Half == P2(Bits - 1)
Rnd(v) == RRnd(v, Bits)
Nums == {RMul(RInt(m), RPow2(2 * e + b - (Bits - 1))) : m \in Half..(2 * Half - 1), b \in 0..1, e \in -Exps..Exps}
Init == x \in Nums /\ cur = x /\ prev = RZero /\ n = 0
Step == /\ cur # prev
        /\ cur' = Rnd(RMul(RHalf, Rnd(RAdd(cur, Rnd(RDiv(x, cur))))))
        /\ prev' = cur /\ n' = n + 1 /\ x' = x
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == cur = prev
Terminates == <>Done
Bounded == n <= Bits + 2 * Exps + 8
Ulp(v) == RPow2(RLog2(v) - (Bits - 1))
Exact == Done => LET s == RSqrt(x, 60) IN RLe(RAbs(RSub(cur, s)), Ulp(s))
Emit == n = 0 => REmitR(OutFile, <<x>>)
=============================================================================

------------------------------ MODULE MC_Norm -------------------------------
(***************************************************************************)
(* Design model of angle normalisation in toy floating point numbers with  *)
(* P significant bits (RRnd rounds every operation): remainder first, then *)
(* at most one addition, then the range is enforced. All toy angles with   *)
(* exponents in Exps are explored. Checked: it terminates in [0, Per), and *)
(* the result is congruent to the angle as long as the angle still has a   *)
(* unit digit. (The loop "while angle < 0: angle += Per", which the code   *)
(* used to have, violates Terminates: it is kept as Variant = "loop", and  *)
(* was repaired in the code.)                                              *)
(***************************************************************************)
EXTENDS Vec
CONSTANTS P, Per, ExpHi, Variant
VARIABLES start, x, pc
vars == <<start, x, pc>>
Rn(y) == RRnd(y, P)
Angles == {RZero} \cup {RMul(RInt(s * m), RPow2(k)) : s \in {-1, 1}, m \in (2 ^ (P - 1))..(2 ^ P - 1), k \in (-ExpHi)..ExpHi}
Init == start \in Angles /\ x = start /\ pc = "start"
Mod(y) == Rn(RSub(y, Rn(RMul(RInt(Per), RTrunc(Rn(RDiv(y, RInt(Per))))))))
Remainder == /\ pc = "start" /\ Variant = "once"
             /\ x' = Mod(x) /\ pc' = "sign" /\ UNCHANGED start
Shift == /\ pc = "sign"
         /\ x' = IF RLt(x, RZero) THEN Rn(RAdd(x, RInt(Per))) ELSE x
         /\ pc' = "range" /\ UNCHANGED start
Range == /\ pc = "range"
         /\ x' = IF RLt(x, RZero) \/ RLe(RInt(Per), x) THEN RZero ELSE x
         /\ pc' = "done" /\ UNCHANGED start
LoopAdd == /\ pc = "start" /\ Variant = "loop" /\ RLt(x, RZero)
           /\ x' = Rn(RAdd(x, RInt(Per))) /\ UNCHANGED <<start, pc>>
LoopEnd == /\ pc = "start" /\ Variant = "loop" /\ ~RLt(x, RZero)
           /\ x' = Mod(x) /\ pc' = "done" /\ UNCHANGED start
Next == Remainder \/ Shift \/ Range \/ LoopAdd \/ LoopEnd
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc = "done")
InRange == pc = "done" => RLe(RZero, x) /\ RLt(x, RInt(Per))
Congruent == pc = "done" /\ RLe(RAbs(start), RPow2(P - 1)) =>
   LET q == RDiv(RSub(x, start), RInt(Per)) IN
   RLe(RMul(RInt(Per), RAbs(RSub(q, RFloor(RAdd(q, RHalf))))), RMul(RPow2(2 - P), RAdd(RAbs(start), RInt(Per))))
=============================================================================

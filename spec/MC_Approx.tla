------------------------------ MODULE MC_Approx -------------------------------
(***************************************************************************)
(* Design model of approximate comparison. A state holds a number, an      *)
(* approximate value and its epsilon on a lattice; a step moves the number *)
(* up. Checked: exactly one of <, ==, > holds; <=, >= are < or ==, > or == *)
(* for numbers; the answers change monotonically (<, then ==, then >)      *)
(* while the number grows; both operand orders agree. All are replayed.    *)
(***************************************************************************)
EXTENDS C27
CONSTANTS K, OutFile
VARIABLES x, v, eps
vars == <<x, v, eps>>
H(i) == RFrac(i, 4)
Init == x = H(-K - 2) /\ v \in {H(i) : i \in -K..K} /\ eps \in {H(i) : i \in 0..K}
Next == RLt(x, H(K + 2)) /\ x' = RAdd(x, H(1)) /\ UNCHANGED <<v, eps>>
Spec == Init /\ [][Next]_vars
Lt(a) == RLt(a, RSub(v, eps))
Gt(a) == RLt(RAdd(v, eps), a)
Eq(a) == RLe(RAbs(RSub(a, v)), eps)
One == /\ Lt(x) \/ Eq(x) \/ Gt(x)
       /\ ~(Lt(x) /\ Eq(x)) /\ ~(Gt(x) /\ Eq(x)) /\ ~(Lt(x) /\ Gt(x))
Closed == (~Gt(x) <=> Lt(x) \/ Eq(x)) /\ (~Lt(x) <=> Gt(x) \/ Eq(x))
Sides == (RLt(v, RSub(x, eps)) <=> Gt(x)) /\ (RLt(RAdd(x, eps), v) <=> Lt(x))
Mono == [][(Lt(x') => Lt(x)) /\ (Gt(x) => Gt(x')) /\ (Gt(x') => ~Lt(x) \/ Gt(x'))]_vars
Single == Eq27("d", <<x>>, <<v>>, eps) = {Eq(x)} /\ Cardinality(Lex27("d", <<x>>, <<v>>, eps, 1, 1)) = 1
Emit == REmitR(OutFile, <<x, v, eps>>)
=============================================================================

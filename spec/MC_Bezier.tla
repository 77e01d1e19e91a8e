------------------------------ MODULE MC_Bezier -------------------------------
(***************************************************************************)
(* Design model of the patch: a state is a grid of control values over a   *)
(* lattice and two parameters; a step moves a parameter. Checked: the      *)
(* weighted sum is the one of repeated interpolation, it interpolates the  *)
(* corners, stays within the bounds, is symmetric under exchange of u and  *)
(* v together with transposition and under reversal, and moving all        *)
(* control values moves the patch. Grids and parameters are replayed.      *)
(***************************************************************************)
EXTENDS C26
CONSTANTS K, Q, OutFile
VARIABLES g, u, v
vars == <<g, u, v>>
Vals == {RInt(x) : x \in 0..K}
(* one coordinate; the corner values and the middle row and column vary *)
Grids == {[i \in 1..3 |-> [j \in 1..3 |-> << (IF i = 2 /\ j = 2 THEN m ELSE IF i = 2 THEN b ELSE IF j = 2 THEN c ELSE IF i = j THEN a ELSE d) >>]] :
          m \in Vals, a \in Vals, b \in Vals, c \in Vals, d \in Vals}
Pars == {RFrac(x, Q) : x \in -1..(Q + 1)}
Init == g \in Grids /\ u = RFrac(-1, Q) /\ v = RFrac(-1, Q)
Up(x) == RAdd(x, RFrac(1, Q))
Next == \/ Up(u) \in Pars /\ u' = Up(u) /\ UNCHANGED <<g, v>>
        \/ Up(v) \in Pars /\ v' = Up(v) /\ UNCHANGED <<g, u>>
P == Patch(g, u, v)
Same == P = PatchC(g, u, v)
Swapped == P = Patch([i \in 1..3 |-> [j \in 1..3 |-> g[j][i]]], v, u)
Reversed == P = Patch([i \in 1..3 |-> g[4 - i]], u, RSub(ROne, v)) /\ P = Patch([i \in 1..3 |-> [j \in 1..3 |-> g[i][4 - j]]], RSub(ROne, u), v)
Moved == Patch([i \in 1..3 |-> [j \in 1..3 |-> VAdd(g[i][j], <<ROne>>)]], u, v) = VAdd(P, <<ROne>>)
Corner == (u \in {RZero, ROne} /\ v \in {RZero, ROne}) => P = g[IF v = RZero THEN 1 ELSE 3][IF u = RZero THEN 1 ELSE 3]
Bounds == (u \in Pars \ {RFrac(-1, Q), RFrac(Q + 1, Q)} /\ v \in Pars \ {RFrac(-1, Q), RFrac(Q + 1, Q)}) =>
  LET S == {g[i][j][1] : i \in 1..3, j \in 1..3} IN RLe(SetMin(S), P[1]) /\ RLe(P[1], SetMax(S))
Emit == (u = v \/ RAdd(u, v) = ROne) => REmitR(OutFile, <<g, u, v>>)
=============================================================================

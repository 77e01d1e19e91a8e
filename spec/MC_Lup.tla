------------------------------- MODULE MC_Lup -------------------------------
(***************************************************************************)
(* LU decomposition with partial pivoting, one elimination step per        *)
(* transition, on every N x N matrix over Vals, in exact arithmetic.       *)
(* Checked: after every step the row-permuted input is the product of the  *)
(* partial factors; a pivot of zero is met iff the matrix is singular; the *)
(* multipliers never exceed one in magnitude; forward and back             *)
(* substitution solve the system. The matrices are written out for replay. *)
(***************************************************************************)
EXTENDS Vec
CONSTANTS N, Lim, OutFile
VARIABLES orig, a, pi, k, status
vars == <<orig, a, pi, k, status>>
Ints == -Lim..Lim
Mats == [1..N -> [1..N -> Ints]]
Rat(m) == [r \in 1..N |-> [c \in 1..N |-> RInt(m[r][c])]]
Init == /\ orig \in Mats /\ a = Rat(orig) /\ pi = [i \in 1..N |-> i] /\ k = 1 /\ status = "run"
Pivot == CHOOSE i \in k..N : /\ \A j \in k..N : RLe(RAbs(a[j][k]), RAbs(a[i][k]))
                             /\ \A j \in k..(i - 1) : RLt(RAbs(a[j][k]), RAbs(a[i][k]))
SwapS(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Step == /\ status = "run" /\ k <= N
        /\ LET p == Pivot b == SwapS(a, k, p) IN
           IF a[p][k] = RZero THEN status' = "singular" /\ UNCHANGED <<a, pi, k>>
           ELSE /\ pi' = SwapS(pi, k, p)
                /\ a' = [i \in 1..N |-> IF i <= k THEN b[i]
                          ELSE LET l == RDiv(b[i][k], b[k][k]) IN
                               [j \in 1..N |-> IF j < k THEN b[i][j] ELSE IF j = k THEN l ELSE RSub(b[i][j], RMul(l, b[k][j]))]]
                /\ k' = k + 1 /\ status' = IF k = N THEN "done" ELSE "run"
        /\ UNCHANGED orig
Next == Step
(* the factors as far as column k - 1 has been eliminated *)
L == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN ROne ELSE IF j < i /\ j < k THEN a[i][j] ELSE RZero]]
U == [i \in 1..N |-> [j \in 1..N |-> IF j < i /\ j < k THEN RZero ELSE a[i][j]]]
Factors == MMul(L, U) = [i \in 1..N |-> Rat(orig)[pi[i]]]
Bounded == \A i, j \in 1..N : j < i /\ j < k => RLe(RAbs(a[i][j]), ROne)
Detects == /\ status = "singular" => Det(Rat(orig)) = RZero
           /\ status = "done" => Det(Rat(orig)) # RZero
B == [i \in 1..N |-> RInt(i)]
Fwd == LET y[i \in 1..N] == RSub(B[pi[i]], RSum([j \in 1..(i - 1) |-> RMul(a[i][j], y[j])])) IN y
Back == LET y == Fwd
            x[i \in 1..N] == RDiv(RSub(y[i], RSum([j \in 1..(N - i) |-> RMul(a[i][i + j], x[i + j])])), a[i][i]) IN x
Solves == status = "done" => MApply(Rat(orig), [i \in 1..N |-> Back[i]]) = B
Emit == k = 1 /\ status = "run" => REmit(OutFile, <<N, orig>>)
=============================================================================

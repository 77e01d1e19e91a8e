------------------------------ MODULE MC_Sort -------------------------------
(* The partition/recursion scheme that ranks components, one swap or one      *)
(* recursion per step, over all arrays of N small values (ties, both signs).  *)
(* Checked: the array stays a permutation of the input, the work list only    *)
(* shrinks, and when it is empty the array is sorted. Each input is written   *)
(* out for replay.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat
CONSTANTS N, Vals, OutFile
VARIABLES orig, a, work, part
(* work: stack of half-open ranges <<l, r>>; part: << >> or the running       *)
(* partition <<l, r, mid, i>> of the top range, with the pivot at l           *)
vars == <<orig, a, work, part>>
ValSet == {-2, -1, 0, 1, 2}
Init == /\ orig \in [1..N -> Vals]
        /\ a = orig
        /\ work = << <<1, N + 1>> >>
        /\ part = <<>>
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Begin == /\ part = <<>> /\ work # <<>>
         /\ LET l == work[1][1] r == work[1][2] IN
            IF l < r THEN part' = <<l, r, l, l + 1>> /\ UNCHANGED <<work>>
            ELSE work' = Tail(work) /\ UNCHANGED <<part>>
         /\ UNCHANGED <<orig, a>>
Scan == /\ part # <<>> /\ part[4] < part[2]
        /\ LET l == part[1] r == part[2] m == part[3] i == part[4] IN
           IF a[i] < a[l] THEN a' = Swap(a, m + 1, i) /\ part' = <<l, r, m + 1, i + 1>>
           ELSE a' = a /\ part' = <<l, r, m, i + 1>>
        /\ UNCHANGED <<orig, work>>
Split == /\ part # <<>> /\ part[4] = part[2]
         /\ LET l == part[1] r == part[2] m == part[3] IN
            /\ a' = Swap(a, l, m)
            /\ work' = << <<l, m>>, <<m + 1, r>> >> \o Tail(work)
         /\ part' = <<>>
         /\ UNCHANGED orig
Next == Begin \/ Scan \/ Split
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Count(s, v) == Cardinality({i \in 1..N : s[i] = v})
Permutation == \A v \in Vals : Count(a, v) = Count(orig, v)
Done == work = <<>> /\ part = <<>>
Sorted == Done => \A i \in 1..(N - 1) : a[i] <= a[i + 1]
Pivot == part # <<>> => \A i \in (part[1] + 1)..part[3] : a[i] < a[part[1]]
Terminates == <>Done
Emit == (Done => REmit(OutFile, <<N, orig>>))
=============================================================================

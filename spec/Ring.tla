-------------------------------- MODULE Ring ---------------------------------
(* A polygon is a cyclic sequence of vertices, stored with the smallest vertex *)
(* first.                                                                       *)
EXTENDS Order
Rot(vs, k)  == [i \in 1..Len(vs) |-> vs[((i + k - 1) % Len(vs)) + 1]]
Rev(vs)     == [i \in 1..Len(vs) |-> vs[Len(vs) + 1 - i]]
IsCanon(vs) == \A i \in 1..Len(vs) : LexExact(vs[1], vs[i]) <= 0
SameCycle(a, b) == a = b \/ (Len(a) = Len(b) /\ \E k \in 1..Len(a) : Rot(a, k) = b)
NearCycle(a, b, tol) ==
  a = b \/ (Len(a) = Len(b) /\ \E k \in 1..Len(a) : \A i \in 1..Len(a) : VNear(Rot(a, k)[i], b[i], tol))
(* rotation that brings the (first) smallest vertex to the front *)
Canon(vs) == IF vs = <<>> THEN vs
             ELSE Rot(vs, (CHOOSE i \in 1..Len(vs) : (\A j \in 1..Len(vs) : LexExact(vs[i], vs[j]) <= 0)
                                                /\ (\A j \in 1..(i - 1) : LexExact(vs[i], vs[j]) < 0)) - 1)
SameLoop(a, b) == SameCycle(a, b) \/ SameCycle(Rev(a), b)     \* regardless of the orientation
Sgn(i) == IF i < 0 THEN -1 ELSE IF i > 0 THEN 1 ELSE 0
=============================================================================

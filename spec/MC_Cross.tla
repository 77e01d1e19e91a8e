------------------------------- MODULE MC_Cross ------------------------------
(***************************************************************************)
(* Design model of the crossing number test. A state is a polygon over a   *)
(* lattice, a point, and the edges visited so far with the number of       *)
(* crossings counted. Checked when all edges were visited: the answer is   *)
(* the one of the half planes (convex polygons) or of the two triangles of *)
(* a quadrangle with a reflex corner, also where the point is level with   *)
(* vertices and edges. Polygons are written out and replayed.              *)
(***************************************************************************)
EXTENDS Poly2
CONSTANTS K, Sides, OutFile
VARIABLES vs, p, i, d, hit
vars == <<vs, p, i, d, hit>>
Pts == {<<RInt(x), RInt(y)>> : x \in 0..K, y \in 0..K}
Turns(q) == [j \in 1..Len(q) |-> Turn(q[j], q[NextI(q, j)], q[NextI(q, NextI(q, j))])]
Distinct(q) == \A j, k \in 1..Len(q) : j # k => q[j] # q[k]
(* every corner is strictly on one side of every other edge: equal turns alone admit stars *)
Convex(q) == \E s \in {1, -1} : \A j, k \in 1..Len(q) :
               k \notin {j, NextI(q, j)} => Turn(q[j], q[NextI(q, j)], q[k]) = s
(* quadrangle with exactly one reflex corner: simple, it splits at that corner *)
Reflex(q) == Len(q) = 4 /\ \E s \in {1, -1} : \E j \in 1..4 : Turns(q)[j] = -s /\ \A k \in 1..4 \ {j} : Turns(q)[k] = s
HalfPlanes(q, x) == LET s == Turns(q)[1] IN \A j \in 1..Len(q) : Turn(q[j], q[NextI(q, j)], x) * s >= 0
Split(q, x) ==   \* Turns[j] is the turn at vertex j+1
  LET j == CHOOSE k \in 1..4 : \A m \in 1..4 \ {k} : Turns(q)[m] = -Turns(q)[k]
      c == NextI(q, j) c1 == NextI(q, c) c2 == NextI(q, c1) c3 == NextI(q, c2)
  IN HalfPlanes(<<q[c], q[c1], q[c2]>>, x) \/ HalfPlanes(<<q[c], q[c2], q[c3]>>, x)
Polys == {q \in [1..Sides -> Pts] : Distinct(q) /\ q[1] = <<RZero, RInt(K \div 2)>> /\ (Convex(q) \/ Reflex(q))}
Init == vs \in Polys /\ p \in Pts /\ i = 0 /\ d = 0 /\ hit = FALSE
Step == /\ i < Len(vs)
        /\ i' = i + 1
        /\ LET a == vs[i + 1] b == vs[NextI(vs, i + 1)] IN
           /\ hit' = (hit \/ OnSeg(p, a, b))
           /\ d' = d + (IF Crosses(p, a, b) THEN 1 ELSE 0)
        /\ UNCHANGED <<vs, p>>
Next == Step
Right == i = Len(vs) => (hit \/ d % 2 = 1) = (IF Convex(vs) THEN HalfPlanes(vs, p) ELSE Split(vs, p))
Same  == i = Len(vs) => (hit \/ d % 2 = 1) = InPoly(vs, p)
Emit  == (i = Len(vs) /\ p = <<RZero, RZero>>) => REmitR(OutFile, <<Len(vs), vs>>)
=============================================================================

-------------------------------- MODULE Cube --------------------------------
(* The surface of a box by corner selections: a corner is a triple over       *)
(* {0, 1} (0 = min, 1 = max in that component).                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Corners == {<<x, y, z>> : x \in {0, 1}, y \in {0, 1}, z \in {0, 1}}
Diff(a, b) == {i \in 1..3 : a[i] # b[i]}
CubeEdges == {{a, b} : a \in Corners, b \in Corners} \cap {s \in SUBSET Corners : Cardinality(s) = 2 /\ \A a \in s, b \in s : Cardinality(Diff(a, b)) <= 1}
ISub(a, b) == [i \in 1..3 |-> a[i] - b[i]]
ICross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
IDot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Axes6 == {<<x, y, z>> : x \in -1..1, y \in -1..1, z \in -1..1} \cap {v \in [1..3 -> -1..1] : IDot(v, v) = 1}
(* the four corners q of the face with outward normal n, clockwise seen from outside *)
IsFace(q, n) ==
  /\ Len(q) = 4 /\ Cardinality({q[i] : i \in 1..4}) = 4
  /\ \A i \in 1..4 : \A k \in 1..3 : n[k] # 0 => q[i][k] = (IF n[k] > 0 THEN 1 ELSE 0)
  /\ \A i \in 1..4 : LET j == (i % 4) + 1 k == (j % 4) + 1 IN
       /\ Cardinality(Diff(q[i], q[j])) = 1
       /\ IDot(ICross(ISub(q[j], q[i]), ISub(q[k], q[j])), n) < 0
DirEdges(q) == {<<q[i], q[(i % 4) + 1]>> : i \in 1..4}
=============================================================================

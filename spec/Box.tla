--------------------------------- MODULE Box ---------------------------------
(* A box [min |-> v, max |-> w] denotes the set of points between its corners. *)
EXTENDS Vec

BoxAt(a, b) == [min |-> a, max |-> b]
BDim(b)     == Len(b.min)
IsBox(b)    == \A i \in 1..BDim(b) : RLe(b.min[i], b.max[i])
VMin(a, b)  == [i \in 1..Len(a) |-> RMin(a[i], b[i])]
VMax(a, b)  == [i \in 1..Len(a) |-> RMax(a[i], b[i])]
BEmpty(b)   == \E i \in 1..BDim(b) : RLe(b.max[i], b.min[i])
BPoint(b, p) == \A i \in 1..Len(p) : RLe(b.min[i], p[i]) /\ RLe(p[i], b.max[i])
BSub(b, c)  == \A i \in 1..BDim(b) : RLe(b.min[i], c.min[i]) /\ RLe(c.max[i], b.max[i])
BEncl(b, c) == \A i \in 1..BDim(b) : RLt(b.min[i], c.min[i]) /\ RLt(c.max[i], b.max[i])
BMeet(b, c) == \A i \in 1..BDim(b) : RLe(b.min[i], c.max[i]) /\ RLe(c.min[i], b.max[i])
BOrigin(n)  == BoxAt(VZero(n), VZero(n))
BMerge(b, c) == BoxAt(VMin(b.min, c.min), VMax(b.max, c.max))
BMergeP(b, p) == BoxAt(VMin(b.min, p), VMax(b.max, p))
BRepair(b)  == BoxAt(VMin(b.min, b.max), VMax(b.min, b.max))
BCut(b, c)  == IF BMeet(b, c) THEN BoxAt(VMax(b.min, c.min), VMin(b.max, c.max)) ELSE BOrigin(BDim(b))
BClamp(b, p) == VMax(b.min, VMin(b.max, p))
BPos(b, p)  == [i \in 1..Len(p) |-> IF RLt(p[i], b.min[i]) THEN -1 ELSE IF RLt(b.max[i], p[i]) THEN 1 ELSE 0]
RECURSIVE BHull(_)      \* the least box around a non-empty sequence of boxes
BHull(s) == IF Len(s) = 1 THEN s[1] ELSE BMerge(s[1], BHull(Tail(s)))
=============================================================================

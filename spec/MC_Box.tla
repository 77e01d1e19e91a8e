------------------------------- MODULE MC_Box -------------------------------
(***************************************************************************)
(* Design model of boxes and of the builder over a small lattice. A state  *)
(* is a builder's history of additions together with the set of all points *)
(* added so far. Checked: the specified operations are exactly the set     *)
(* operations on the denoted point sets, merge and the builder yield the   *)
(* least box, intersect the common part. Histories are written out.        *)
(***************************************************************************)
EXTENDS Box
CONSTANTS K, Steps, OutFile
VARIABLES hist, cur
Pts  == {<<RInt(x), RInt(y)>> : x \in 0..K, y \in 0..K}
Boxes == {b \in {BoxAt(p, q) : p \in Pts, q \in Pts} : IsBox(b)}
Den(b) == {p \in Pts : BPoint(b, p)}
Init == hist = <<>> /\ cur = BoxAt(<<>>, <<>>)
Add(b) == /\ Len(hist) < Steps
          /\ cur' = IF hist = <<>> THEN b ELSE BMerge(cur, b)
          /\ hist' = Append(hist, b)
Next == \E b \in Boxes : Add(b)
Covered == hist # <<>> => \A i \in 1..Len(hist) : Den(hist[i]) \subseteq Den(cur)
Least   == hist # <<>> => \A b \in Boxes : (\A i \in 1..Len(hist) : BSub(b, hist[i])) => BSub(b, cur)
SetOps  == Len(hist) = 2 =>
  LET a == hist[1] b == hist[2] IN
  /\ BSub(a, b) = (Den(b) \subseteq Den(a))
  /\ BMeet(a, b) = (Den(a) \cap Den(b) # {})
  /\ BMeet(a, b) => Den(BCut(a, b)) = Den(a) \cap Den(b)
  /\ BEncl(a, b) => BSub(a, b) /\ ~BSub(b, a)
  /\ BMeet(a, b) = BMeet(b, a)
Clamp == Len(hist) = 1 => \A p \in Pts :
  LET c == BClamp(cur, p) D(q) == VSqLen(VSub(p, q)) IN
  /\ BPoint(cur, c) /\ \A q \in Den(cur) : RLe(D(c), D(q))
  /\ BPoint(cur, p) = (BPos(cur, p) = <<0, 0>>)
Emit == Len(hist) = Steps => REmitR(OutFile, <<Steps, [i \in 1..Len(hist) |-> <<hist[i].min, hist[i].max>>]>>)
=============================================================================

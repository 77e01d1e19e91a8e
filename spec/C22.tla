--------------------------------- MODULE C22 ---------------------------------
(* The convex hull of coplanar points, judged in a projection along an axis in *)
(* which their plane is not degenerate (n is a normal). Exact inputs have to   *)
(* give the exact hull; for rounded ones every point has to be on the inner    *)
(* side of every edge up to tol (a bound of the doubled triangle area), and    *)
(* every corner has to be one of the points, each once.                        *)
EXTENDS Hull
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Subset(h, ps) == \A i \in 1..Len(h) : \E j \in 1..Len(ps) : h[i] = ps[j]
Area(a, b, c) == Cross2(VSub(b, a), VSub(c, a))
Inner(h, ps, s, tol) ==
  \A i \in 1..Len(h) : \A j \in 1..Len(ps) :
    LET x == Area(h[i], h[NextI(h, i)], ps[j]) IN RLe(RNeg(tol), IF s > 0 THEN x ELSE RNeg(x))
PostC22(e) ==
  CASE e.op = "hull" ->
         LET k == MajorAxis(e.n) ps == DropAll(e.pts, k) h == DropAll(e.r, k) IN
         /\ Subset(e.r, e.pts)
         /\ IsHull(h, ps)
         (* the same points in another order: the same corners *)
         /\ {e.r[i] : i \in 1..Len(e.r)} = {e.rs[i] : i \in 1..Len(e.rs)} /\ Len(e.r) = Len(e.rs)
    [] e.op = "rounded" ->
         LET k == MajorAxis(e.n) ps == DropAll(e.pts, k) h == DropAll(e.r, k) IN
         /\ Len(h) >= 3 /\ Distinct(e.r) /\ Subset(e.r, e.pts)
         /\ (Inner(h, ps, 1, e.tol) \/ Inner(h, ps, -1, e.tol))
    [] e.op = "colinear" -> e.r = <<>>
=============================================================================

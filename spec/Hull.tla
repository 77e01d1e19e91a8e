-------------------------------- MODULE Hull ---------------------------------
(* What a list of corners has to satisfy to be the convex hull of points in    *)
(* the plane. All corners are points; every point is on the same side of every *)
(* edge; and the polygon turns strictly at every corner, so that the corners   *)
(* are exactly the extreme points.                                             *)
EXTENDS Poly2
AllColinear(ps) == \A i, j, k \in 1..Len(ps) : Turn(ps[i], ps[j], ps[k]) = 0
SidesOk(h, ps, s) ==
  \A i \in 1..Len(h) : LET a == h[i] b == h[NextI(h, i)] c == h[NextI(h, NextI(h, i))] IN
    /\ Turn(a, b, c) = s
    /\ \A j \in 1..Len(ps) : Turn(a, b, ps[j]) # -s
HullOf(h, ps) == /\ Len(h) >= 3
                 /\ \A i \in 1..Len(h) : \E j \in 1..Len(ps) : h[i] = ps[j]
                 /\ SidesOk(h, ps, Turn(h[1], h[2], h[3])) /\ Turn(h[1], h[2], h[3]) # 0
IsHull(h, ps) == IF AllColinear(ps) THEN h = <<>> ELSE HullOf(h, ps)
=============================================================================

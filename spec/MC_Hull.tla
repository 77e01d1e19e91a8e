------------------------------- MODULE MC_Hull --------------------------------
(***************************************************************************)
(* Design model of the hull construction over all lists of N lattice       *)
(* points, in any order and with repetitions. The points are sorted from   *)
(* bottom to top and from right to left; one pass over them builds the     *)
(* right side of the hull, a second one in reverse order its left side,    *)
(* each by pushing a point after popping the ones that it makes stale.     *)
(* Checked: the final stack is the hull of the points as Hull defines it,  *)
(* or empty exactly for points on one line. The lists are written out and  *)
(* replayed.                                                               *)
(***************************************************************************)
EXTENDS Hull
CONSTANTS N, K, OutFile
VARIABLES pts, pc, todo, base, stack
vars == <<pts, pc, todo, base, stack>>
Grid == {<<RInt(x), RInt(y)>> : x \in 0..K, y \in 0..K}
Init == /\ pts \in [1..N -> Grid] /\ pc = "sort" /\ todo = <<>> /\ base = 1 /\ stack = <<>>
Before(p, q) == RLt(p[2], q[2]) \/ (p[2] = q[2] /\ RLt(q[1], p[1]))
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE i \in S : \A j \in S : ~Before(pts[j], pts[i]) IN <<pts[m]>> \o Sorted(S \ {m})
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Sort == /\ pc = "sort"
        /\ pc' = IF AllColinear(pts) THEN "none" ELSE "right"
        /\ todo' = IF AllColinear(pts) THEN <<>> ELSE Sorted(1..N)
        /\ UNCHANGED <<pts, base, stack>>
Stale(p) == Len(stack) > base /\ Turn(stack[Len(stack) - 1], stack[Len(stack)], p) <= 0
Pop == /\ todo # <<>> /\ Stale(todo[1])
       /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
       /\ UNCHANGED <<pts, pc, todo, base>>
Push == /\ todo # <<>> /\ ~Stale(todo[1])
        /\ stack' = Append(stack, todo[1]) /\ todo' = Tail(todo)
        /\ UNCHANGED <<pts, pc, base>>
(* the top is where the second pass starts; it never leaves the stack again *)
Turnaround == /\ pc = "right" /\ todo = <<>>
              /\ pc' = "left" /\ todo' = Tail(Rev(Sorted(1..N))) /\ base' = Len(stack)
              /\ UNCHANGED <<pts, stack>>
(* back at the bottom, which is on the stack twice *)
Close == /\ pc = "left" /\ todo = <<>>
         /\ pc' = "done" /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
         /\ UNCHANGED <<pts, todo, base>>
Next == Sort \/ Pop \/ Push \/ Turnaround \/ Close
Right == pc \in {"none", "done"} => IsHull(stack, pts)
StackConvex == \A i \in 1..(Len(stack) - 2) : (i + 1 # base \/ pc # "left") => Turn(stack[i], stack[i + 1], stack[i + 2]) > 0
Emit == pc = "sort" => REmitR(OutFile, <<N, pts>>)
=============================================================================

------------------------------- MODULE MC_Ring --------------------------------
(***************************************************************************)
(* Design model of a polygon and of the comparison that ignores the        *)
(* orientation. A polygon is made from any list of N distinct vertices out *)
(* of V, then inverted and transformed (any injective relabelling of the   *)
(* vertices), each time by the steps the representation takes: reverse all *)
(* but the first vertex, rotate the smallest one to the front. Checked:    *)
(* it always is the canonical form of the abstract cyclic sequence.        *)
(* Then a second polygon is made and compared vertex by vertex: forwards   *)
(* if the second vertices agree, else backwards. Checked: 0 exactly for    *)
(* the same loop, and antisymmetric. The pairs are written out for replay. *)
(***************************************************************************)
EXTENDS Ring
CONSTANTS N, V, Ops, OutFile
VARIABLES cyc, a, b, steps, pc, i, res
vars == <<cyc, a, b, steps, pc, i, res>>
Vert(k) == << RInt(k) >>
Lists == {s \in [1..N -> 1..V] : \A p, q \in 1..N : p # q => s[p] # s[q]}
PolyOf(s) == [k \in 1..N |-> Vert(s[k])]
Init == /\ cyc \in {PolyOf(s) : s \in Lists} /\ a = Canon(cyc) /\ b = <<>>
        /\ steps = 0 /\ pc = "one" /\ i = 0 /\ res = 9
RevTail(vs) == [k \in 1..Len(vs) |-> IF k = 1 THEN vs[1] ELSE vs[Len(vs) + 2 - k]]
Invert == /\ pc = "one" /\ steps < Ops
          /\ a' = Canon(RevTail(a)) /\ cyc' = Rev(cyc)
          /\ steps' = steps + 1 /\ UNCHANGED <<b, pc, i, res>>
(* mirror the vertices: the smallest becomes the largest *)
Mirror(vs) == [k \in 1..Len(vs) |-> << RSub(RInt(V + 1), vs[k][1]) >>]
Transform == /\ pc = "one" /\ steps < Ops
             /\ a' = Canon(Mirror(a)) /\ cyc' = Mirror(cyc)
             /\ steps' = steps + 1 /\ UNCHANGED <<b, pc, i, res>>
Other == /\ pc = "one" /\ steps = 0
         /\ b' \in {Canon(PolyOf(s)) : s \in Lists} /\ pc' = "first" /\ UNCHANGED <<cyc, a, steps, i, res>>
Cmp(x, y) == LexExact(x, y)
First == /\ pc = "first"
         /\ LET c == Cmp(a[1], b[1]) IN
            IF c # 0 THEN res' = c /\ pc' = "end" /\ i' = i
            ELSE IF N = 1 THEN res' = 0 /\ pc' = "end" /\ i' = i
            ELSE IF Cmp(a[2], b[2]) = 0 THEN pc' = "fwd" /\ i' = 3 /\ res' = res
            ELSE pc' = "bwd" /\ i' = 2 /\ res' = res
         /\ UNCHANGED <<cyc, a, b, steps>>
Fwd == /\ pc = "fwd"
       /\ IF i > N THEN res' = 0 /\ pc' = "end" /\ i' = i
          ELSE LET c == Cmp(a[i], b[i]) IN
               IF c # 0 THEN res' = c /\ pc' = "end" /\ i' = i ELSE i' = i + 1 /\ UNCHANGED <<pc, res>>
       /\ UNCHANGED <<cyc, a, b, steps>>
Bwd == /\ pc = "bwd"
       /\ IF i > N THEN res' = 0 /\ pc' = "end" /\ i' = i
          ELSE IF Cmp(a[i], b[N + 2 - i]) # 0 THEN res' = Cmp(a[2], b[2]) /\ pc' = "end" /\ i' = i
          ELSE i' = i + 1 /\ UNCHANGED <<pc, res>>
       /\ UNCHANGED <<cyc, a, b, steps>>
Next == Invert \/ Transform \/ Other \/ First \/ Fwd \/ Bwd
Canonical == IsCanon(a) /\ SameCycle(cyc, a)
Loops     == pc = "end" => (res = 0 <=> SameLoop(a, b))
Sign      == pc = "end" /\ res # 0 => res = CHOOSE c \in LexRange(a, b, RZero, RZero, 1) : TRUE
Emit == (pc = "first" => REmitR(OutFile, <<N, cyc, b>>))
=============================================================================

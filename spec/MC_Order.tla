------------------------------ MODULE MC_Order ------------------------------
(* Design model of the order: all triples of small vectors with NaN and      *)
(* infinities. Checked: the specified comparison is a total preorder whose   *)
(* equivalence is component-wise identity, and the epsilon comparison is     *)
(* symmetric and coarser. All pairs are written out for replay on the code.  *)
EXTENDS Order
CONSTANTS Dim, OutFile
Comp == {RNaN, RInf, RInt(-1), RZero, ROne}
Vecs == [1..Dim -> Comp]
VARIABLES x, y, z, stage
vars == <<x, y, z, stage>>
Init == x \in Vecs /\ y = x /\ z = x /\ stage = 0
PickY == stage = 0 /\ y' \in Vecs /\ stage' = 1 /\ UNCHANGED <<x, z>>
PickZ == stage = 1 /\ z' \in Vecs /\ stage' = 2 /\ UNCHANGED <<x, y>>
Next == PickY \/ PickZ
C(a, b) == LexExact(a, b)
Total      == stage = 1 => Cardinality(Lex(x, y, RZero, RZero)) = 1
Antisym    == stage = 1 => C(x, y) = -C(y, x)
Identity   == stage = 1 => (C(x, y) = 0 <=> x = y)
NaNLast    == stage = 1 /\ x[1] = RNaN /\ y[1] # RNaN => C(x, y) = 1
Transitive == stage = 2 => (C(x, y) <= 0 /\ C(y, z) <= 0 => C(x, z) <= 0)
EpsSym     == stage = 1 => LET c == Lex(x, y, RHalf, RZero) d == Lex(y, x, RHalf, RZero)
                           IN c = {-k : k \in d}
Emit == stage = 1 => REmit(OutFile, <<Dim, x, y>>)
=============================================================================

--------------------------------- MODULE Vec ---------------------------------
(* Vectors are sequences of rationals, matrices sequences of rows.            *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC

VMap2(F(_, _), a, b) == [i \in 1..Len(a) |-> F(a[i], b[i])]
VAdd(a, b)   == [i \in 1..Len(a) |-> RAdd(a[i], b[i])]
VSub(a, b)   == [i \in 1..Len(a) |-> RSub(a[i], b[i])]
VScale(a, s) == [i \in 1..Len(a) |-> RMul(a[i], s)]
VNeg(a)      == [i \in 1..Len(a) |-> RNeg(a[i])]
VDot(a, b)   == RDot(a, b)
VSqLen(a)    == RDot(a, a)
VAbs(a)      == [i \in 1..Len(a) |-> RAbs(a[i])]
VZero(n)     == [i \in 1..n |-> RZero]
VAxis(n, k)  == [i \in 1..n |-> IF i = k THEN ROne ELSE RZero]
VCross(a, b) == << RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
                   RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                   RSub(RMul(a[1], b[2]), RMul(a[2], b[1])) >>
VFin(a)      == \A i \in 1..Len(a) : RIsFin(a[i])
VMaxAbs(a)   == RMaxAbs(a)
VEq(a, b)    == Len(a) = Len(b) /\ \A i \in 1..Len(a) : REq(a[i], b[i])
VTake(a, n)  == SubSeq(a, 1, n)
VLerp(a, b, t) == VAdd(a, VScale(VSub(b, a), t))

(* |a - b| <= tol; FALSE when anything is NaN; equal infinities are near.     *)
Near(a, b, tol)  == a = b \/ RLe(RAbs(RSub(a, b)), tol)
VNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
AllNaN(a)        == \A i \in 1..Len(a) : RIsNaN(a[i])
AnyNaN(a)        == \E i \in 1..Len(a) : RIsNaN(a[i])

(* The answer of a floating point comparison "a < b" may be either one when   *)
(* the operands are within tol of each other; otherwise it is the exact one.  *)
FuzzyLt(r, a, b, tol) == RLe(RAbs(RSub(a, b)), tol) \/ (r <=> RLt(a, b))

(* matrices *)
MRows(m)     == Len(m)
MCols(m)     == Len(m[1])
MCol(m, c)   == [r \in 1..Len(m) |-> m[r][c]]
MId(n)       == [r \in 1..n |-> VAxis(n, r)]
MTrans(m)    == [c \in 1..MCols(m) |-> MCol(m, c)]
MMul(a, b)   == [r \in 1..Len(a) |-> [c \in 1..MCols(b) |-> RDot(a[r], MCol(b, c))]]
MApply(m, v) == [r \in 1..Len(m) |-> RDot(m[r], v)]
MMaxAbs(m)   == RMaxAbs([r \in 1..Len(m) |-> RMaxAbs(m[r])])
MNear(a, b, tol) == Len(a) = Len(b) /\ \A r \in 1..Len(a) : VNear(a[r], b[r], tol)
MFin(m)      == \A r \in 1..Len(m) : VFin(m[r])
MNeg(m)      == [r \in 1..Len(m) |-> VNeg(m[r])]
MScale(m, s) == [r \in 1..Len(m) |-> VScale(m[r], s)]
MAdd(a, b)   == [r \in 1..Len(a) |-> VAdd(a[r], b[r])]
MSub(a, b)   == [r \in 1..Len(a) |-> VSub(a[r], b[r])]
DropAt(s, k) == [i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]]
Minor(m, r, c) == [i \in 1..(Len(m) - 1) |-> DropAt(m[IF i < r THEN i ELSE i + 1], c)]
RECURSIVE Det(_)
Det(m) == IF Len(m) = 1 THEN m[1][1]
          ELSE IF Len(m) = 2 THEN RSub(RMul(m[1][1], m[2][2]), RMul(m[1][2], m[2][1]))
          ELSE RSum([c \in 1..Len(m) |->
                 IF m[1][c] = RZero THEN RZero
                 ELSE LET t == RMul(m[1][c], Det(Minor(m, 1, c)))
                      IN IF c % 2 = 1 THEN t ELSE RNeg(t)])
Adj(m) == [r \in 1..Len(m) |-> [c \in 1..Len(m) |->
            IF Len(m) = 1 THEN ROne
            ELSE LET d == Det(Minor(m, c, r)) IN IF (r + c) % 2 = 0 THEN d ELSE RNeg(d)]]
(* affine action of a 4x4 (or n+1 x n+1) matrix on a point, with the perspective divide *)
MPoint(m, v) == LET w == MApply(m, Append(v, ROne)) n == Len(v)
                IN [i \in 1..n |-> RDiv(w[i], w[n + 1])]
MDir(m, v)   == SubSeq(MApply(m, Append(v, RZero)), 1, Len(v))
MLin(m)      == [r \in 1..(Len(m) - 1) |-> SubSeq(m[r], 1, Len(m) - 1)]

RECURSIVE SetMin(_)
SetMin(S) == LET x == CHOOSE y \in S : TRUE IN
             IF Cardinality(S) = 1 THEN x ELSE RMin(x, SetMin(S \ {x}))
SetMax(S) == RNeg(SetMin({RNeg(x) : x \in S}))
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

(* relative accuracy of the component type an event was recorded with         *)
UnitOf(p)    == CASE p = "d" -> RPow2(-40) [] p = "f" -> RPow2(-15) [] OTHER -> RZero
(* Numbers of so few bits that sums and products of a few of them are exact in *)
(* precision p whatever the formula: on them, predicates are decided exactly.  *)
Simple(p, x)  == IF p = "f" THEN RIsInt(RMul(x, RInt(16))) /\ RLe(RAbs(x), RInt(32))
                 ELSE RIsInt(RMul(x, RInt(1024))) /\ RLe(RAbs(x), RInt(4096))
SimpleV(p, v) == \A i \in 1..Len(v) : Simple(p, v[i])
AxisV(v)      == \E i \in 1..Len(v) : RAbs(v[i]) = ROne /\ \A j \in 1..Len(v) : j # i => v[j] = RZero
OpRnd(x, p) == RRnd(x, IF p = "d" THEN 53 ELSE 24)      \* the result of one floating point operation
TolOf(p, scale) == RMul(UnitOf(p), scale)
=============================================================================

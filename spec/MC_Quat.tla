------------------------------- MODULE MC_Quat ------------------------------
(***************************************************************************)
(* The Lipschitz/Hurwitz unit quaternions with rational components as a    *)
(* machine: the state is a product of generators. Checked on every         *)
(* reachable pair: the norm is multiplicative, the rotation of a product   *)
(* is the composition, the conjugate inverts, the matrix is orthogonal and *)
(* q and -q rotate alike. Words are written out for replay.                *)
(***************************************************************************)
EXTENDS Rot
CONSTANTS Len0, OutFile
VARIABLES q, word
Gen == << [r |-> RZero, v |-> VAxis(3, 1)], [r |-> RZero, v |-> VAxis(3, 2)],
          [r |-> RHalf, v |-> <<RHalf, RHalf, RHalf>>],
          [r |-> RFrac(3, 5), v |-> <<RZero, RZero, RFrac(4, 5)>>],
          [r |-> RFrac(4, 5), v |-> <<RFrac(-3, 5), RZero, RZero>>] >>
Init == q = [r |-> ROne, v |-> VZero(3)] /\ word = <<>>
Next == Len(word) < Len0 /\ \E i \in 1..Len(Gen) : q' = QMul(Gen[i], q) /\ word' = Append(word, i)
Probe == << VAxis(3, 1), <<ROne, RTwo, RInt(-3)>> >>
Unit == QNorm2(q) = ROne
Composes == \A i \in 1..Len(Gen) : \A j \in 1..2 : QRot(QMul(Gen[i], q), Probe[j]) = QRot(Gen[i], QRot(q, Probe[j]))
Inverts == \A j \in 1..2 : QRot(QConj(q), QRot(q, Probe[j])) = Probe[j]
Ortho == MMul(QMat(q), MTrans(QMat(q))) = MId(3) /\ Det(QMat(q)) = ROne
DoubleCover == QMat([r |-> RNeg(q.r), v |-> VNeg(q.v)]) = QMat(q)
Emit == Len(word) = Len0 => REmit(OutFile, <<Len0, word>>)
=============================================================================

--------------------------------- MODULE Rot ---------------------------------
(* Rotations of 3-space: by axis and angle (Rodrigues), by quaternion         *)
(* [r |-> scalar, v |-> vector].                                              *)
EXTENDS Trig

(* image of q under the counter-clockwise rotation about the unit vector k,   *)
(* given cosine and sine of the angle                                         *)
RotBy(k, c, s, q) == VAdd(VAdd(VScale(q, c), VScale(VCross(k, q), s)), VScale(k, RMul(VDot(k, q), RSub(ROne, c))))
Rotate(k, a, q) == RotBy(k, CosR(a), SinR(a), q)
RotMat(k, a) == LET c == CosR(a) s == SinR(a) IN MTrans([j \in 1..3 |-> RotBy(k, c, s, VAxis(3, j))])
QMul(p, q) == [r |-> RSub(RMul(p.r, q.r), VDot(p.v, q.v)),
               v |-> VAdd(VAdd(VScale(q.v, p.r), VScale(p.v, q.r)), VCross(p.v, q.v))]
QConj(q) == [r |-> q.r, v |-> VNeg(q.v)]
QNorm2(q) == RAdd(RSq(q.r), VSqLen(q.v))
QRot(q, x) == QMul(QMul(q, [r |-> RZero, v |-> x]), QConj(q)).v
QMat(q) == MTrans([j \in 1..3 |-> QRot(q, VAxis(3, j))])
Affine(lin, t) == [i \in 1..4 |-> IF i = 4 THEN VAxis(4, 4) ELSE Append(lin[i], t[i])]
Diag(v) == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE RZero]]
Identity3 == MId(3)
(* m is a 4x4 matrix that only rotates, and does so like the 3x3 matrix l *)
IsRot(m, l, tol) == MNear(m, Affine(l, VZero(3)), tol)
Orthogonal(l, tol) == MNear(MMul(l, MTrans(l)), MId(3), tol) /\ Near(Det(l), ROne, tol)
=============================================================================

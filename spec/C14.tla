--------------------------------- MODULE C14 ---------------------------------
(* Matrix algebra: a matrix is the sequence of its rows. e.int marks events   *)
(* with small integers only, where every result is exact.                     *)
EXTENDS Vec

Tl(e, s) == IF e.int THEN RZero ELSE TolOf(e.p, s)
MAbs(m) == [r \in 1..Len(m) |-> VAbs(m[r])]
(* the sums of the absolute values of the terms: what rounding is relative to *)
RECURSIVE Perm(_)
Perm(m) == IF Len(m) = 1 THEN RAbs(m[1][1])
           ELSE RSum([c \in 1..Len(m) |-> IF m[1][c] = RZero THEN RZero ELSE RMul(RAbs(m[1][c]), Perm(Minor(m, 1, c)))])
Tiny(e) == IF e.p = "d" THEN RPow2(-900) ELSE RPow2(-120)
TlC(e, s) == IF e.int THEN RZero ELSE RAdd(Tiny(e), TolOf(e.p, s))
Terms(e, r, x, s) == Len(r) = Len(x) /\ \A i \in 1..Len(x) : Near(r[i], x[i], TlC(e, s[i]))
Shape(m, r, c) == Len(m) = r /\ \A i \in 1..r : Len(m[i]) = c
Prec(e) == IF e.p = "d" THEN 53 ELSE 24
RoundM(e, m) == [r \in 1..Len(m) |-> [c \in 1..Len(m[r]) |-> RRnd(m[r][c], Prec(e))]]
Sub(m, r0, c0, nr, nc) == [r \in 1..nr |-> [c \in 1..nc |-> m[r0 + r][c0 + c]]]
Fill(r, c, x) == [i \in 1..r |-> [j \in 1..c |-> x]]
IdRC(r, c) == [i \in 1..r |-> [j \in 1..c |-> IF i = j THEN ROne ELSE RZero]]
N4(a) == [i \in 1..4 |-> [j \in 1..4 |-> IF i = 4 \/ j = 4 THEN (IF i = j THEN ROne ELSE RZero) ELSE RInt(a[i][j])]]
(* quarter turns about the axes, counter-clockwise seen against the axis: the *)
(* next axis is mapped to the one after it                                    *)
Nx(k) == (k % 3) + 1
Quarter(k, s) == N4([i \in 1..3 |-> [j \in 1..3 |->
                  IF i = k /\ j = k THEN 1
                  ELSE IF j = Nx(k) /\ i = Nx(Nx(k)) THEN s
                  ELSE IF j = Nx(Nx(k)) /\ i = Nx(k) THEN -s ELSE 0]])
Half(k) == N4([i \in 1..3 |-> [j \in 1..3 |-> IF i # j THEN 0 ELSE IF i = k THEN 1 ELSE -1]])
Mirror(k) == N4([i \in 1..3 |-> [j \in 1..3 |-> IF i # j THEN 0 ELSE IF i = k THEN -1 ELSE 1]])
ScaleOf(m) == MMaxAbs(m)
(* homogeneous product with division by the last component *)
PointTol(e, m, v) == LET w == MApply(m, Append(v, ROne)) n == Len(v)
                         s == RMul(RInt(4), RMul(MMaxAbs(m), RAdd(ROne, VMaxAbs(v))))
                     IN TolOf(e.p, RDiv(RMul(s, RAdd(ROne, RDiv(RMaxAbs(w), RAbs(w[n + 1])))), RAbs(w[n + 1])))

PostC14(e) ==
  CASE e.op = "ctor" ->                   \* rows listed one after the other
         LET R == e.rows C == e.cols rows == [r \in 1..R |-> SubSeq(e.l, (r - 1) * C + 1, r * C)] IN
         /\ e.list = rows /\ e.args = rows /\ e.index = rows /\ e.conv = rows
         /\ e.fill = Fill(R, C, e.l[1]) /\ e.zero = Fill(R, C, RZero)
         /\ e.id = IdRC(R, C) /\ e.dflt = IdRC(R, C)
    [] e.op = "named" -> /\ \A k \in 1..3 : /\ e.ccw[k] = Quarter(k, 1) /\ e.cw[k] = Quarter(k, -1)
                                            /\ e.half[k] = Half(k) /\ e.mirror[k] = Mirror(k)
                         /\ \A k \in 1..4 : e.zo[k] = [MId(4) EXCEPT ![k][k] = RZero]
    [] e.op = "linear" ->
         /\ e.pos = e.a /\ e.neg = MNeg(e.a)
         /\ e.add = RoundM(e, MAdd(e.a, e.b)) /\ e.sub = RoundM(e, MSub(e.a, e.b))
         /\ e.mul = RoundM(e, MScale(e.a, e.s)) /\ e.lmul = e.mul
         /\ e.div = RoundM(e, [r \in 1..Len(e.a) |-> [c \in 1..Len(e.a[r]) |-> RDiv(e.a[r][c], e.s)]])
         /\ e.set = [e.a EXCEPT ![e.i + 1][e.j + 1] = e.w]
    [] e.op = "iszero" -> e.r = (\A r \in 1..Len(e.a) : \A c \in 1..Len(e.a[r]) : RLe(RAbs(e.a[r][c]), e.eps))
    [] e.op = "product" -> /\ Shape(e.r, Len(e.a), MCols(e.b))
                           /\ LET x == MMul(e.a, e.b) s == MMul(MAbs(e.a), MAbs(e.b)) IN \A i \in 1..Len(x) : Terms(e, e.r[i], x[i], s[i])
    [] e.op = "matvec" -> Terms(e, e.r, MApply(e.a, e.v), MApply(MAbs(e.a), VAbs(e.v)))
    [] e.op = "vecmat" -> Terms(e, e.r, MApply(MTrans(e.a), e.v), MApply(MAbs(MTrans(e.a)), VAbs(e.v)))
    [] e.op = "point" ->                  \* m * v and v * m for a cartesian v
         /\ VNear(e.r, MPoint(e.a, e.v), PointTol(e, e.a, e.v))
         /\ VNear(e.l, MPoint(MTrans(e.a), e.v), PointTol(e, MTrans(e.a), e.v))
    [] e.op = "lists" ->                  \* element by element, same as the single product
         LET n == Len(e.v) IN
         /\ Len(e.mv) = n /\ Len(e.vm) = n /\ Len(e.mp) = n /\ Len(e.pm) = n
         /\ \A i \in 1..n : /\ Terms(e, e.mv[i], MApply(e.a, e.v[i]), MApply(MAbs(e.a), VAbs(e.v[i])))
                            /\ Terms(e, e.vm[i], MApply(MTrans(e.a), e.v[i]), MApply(MAbs(MTrans(e.a)), VAbs(e.v[i])))
                            /\ VNear(e.mp[i], MPoint(e.a, e.q[i]), PointTol(e, e.a, e.q[i]))
                            /\ VNear(e.pm[i], MPoint(MTrans(e.a), e.q[i]), PointTol(e, MTrans(e.a), e.q[i]))
    [] e.op = "transpose" -> e.r = MTrans(e.a) /\ Shape(e.r, MCols(e.a), Len(e.a))
    [] e.op = "slice" -> e.r = Sub(e.a, e.i, e.j, e.nr, e.nc)
    [] e.op = "minor" -> e.r = Minor(e.a, e.i + 1, e.j + 1)
    [] e.op = "det" -> Near(e.r, Det(e.a), TlC(e, Perm(e.a)))
    [] e.op = "adj" -> LET x == Adj(e.a) n == Len(e.a) IN
                       /\ Shape(e.r, n, n)
                       /\ \A i, j \in 1..n : Near(e.r[i][j], x[i][j], TlC(e, IF n = 1 THEN ROne ELSE Perm(Minor(e.a, j, i))))
=============================================================================

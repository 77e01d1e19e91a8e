--------------------------------- MODULE C02 ---------------------------------
(* Component-wise construction, access and arithmetic of vectors and lists.   *)
EXTENDS Vec

(* one IEEE operation: the exact value rounded to nearest (near the ends of   *)
(* the exponent range with some slack), NaN and infinities as they come;      *)
(* exact for integers                                                         *)
Bits(p) == IF p = "d" THEN 53 ELSE 24
U(p) == CASE p = "d" -> RPow2(-50) [] p = "f" -> RPow2(-21) [] OTHER -> RZero
Tiny(p) == CASE p = "d" -> RPow2(-1060) [] p = "f" -> RPow2(-140) [] OTHER -> RZero
MaxExp(p) == IF p = "d" THEN 1024 ELSE 128
Fit(y, p) == IF RLt(RAbs(y), RPow2(MaxExp(p))) THEN y ELSE IF RSgn(y) < 0 THEN RNInf ELSE RInf
Rounded(r, x, p) ==
  IF p = "i" \/ ~RIsFin(x) \/ x = RZero THEN r = x
  ELSE IF RLe(RPow2(4 - MaxExp(p)), RAbs(x)) THEN r = Fit(RRnd(x, Bits(p)), p)
  ELSE Near(r, x, RAdd(RMul(U(p), RAbs(x)), Tiny(p)))
VRounded(r, x, p) == Len(r) = Len(x) /\ \A i \in 1..Len(x) : Rounded(r[i], x[i], p)
LRounded(r, x, p) == Len(r) = Len(x) /\ \A i \in 1..Len(x) : VRounded(r[i], x[i], p)

Quot(a, b, p) == IF p = "i" THEN RTrunc(RDiv(a, b)) ELSE RDiv(a, b)
Conv(x, p)    == IF p = "i" THEN RTrunc(x) ELSE x     \* conversion to the component type
Same(r, x)    == Len(r) = Len(x) /\ \A i \in 1..Len(x) : r[i] = x[i]

PostC02(e) ==
  LET n == IF "a" \in DOMAIN e THEN Len(e.a) ELSE 0 IN
  CASE e.op = "add" -> VRounded(e.r, VAdd(e.a, e.b), e.p)
    [] e.op = "sub" -> VRounded(e.r, VSub(e.a, e.b), e.p)
    [] e.op = "mul" -> VRounded(e.r, [i \in 1..n |-> RMul(e.a[i], e.b[i])], e.p)
    [] e.op = "div" -> VRounded(e.r, [i \in 1..n |-> Quot(e.a[i], e.b[i], e.p)], e.p)
    [] e.op = "smul" -> VRounded(e.r, VScale(e.a, e.s), e.p) /\ Same(e.r2, e.r)
    [] e.op = "divs" -> VRounded(e.r, [i \in 1..n |-> Quot(e.a[i], e.s, e.p)], e.p)
    [] e.op = "sdiv" -> VRounded(e.r, [i \in 1..n |-> Quot(e.s, e.a[i], e.p)], e.p)
    [] e.op = "neg" -> Same(e.r, VNeg(e.a)) /\ Same(e.plus, e.a)
    [] e.op = "get" -> Same(e.r, e.a) /\ Same(e.xyz, e.a)
    [] e.op = "set" -> \A i \in 1..n : e.r[i] = (IF i = e.i + 1 THEN e.s ELSE e.a[i])
    [] e.op = "swz" -> /\ Same(e.xy, <<e.a[1], e.a[2]>>) /\ Same(e.xz, <<e.a[1], e.a[3]>>)
                       /\ Same(e.yz, <<e.a[2], e.a[3]>>) /\ Same(e.xyz, SubSeq(e.a, 1, 3))
                       /\ ("xyzw" \in DOMAIN e => Same(e.xyzw, e.a))
    (* construction: fill with zeros, truncate, append *)
    [] e.op = "zero" -> \A i \in 1..Len(e.r) : e.r[i] = RZero
    [] e.op = "list" -> \A i \in 1..Len(e.r) : e.r[i] = (IF i <= n THEN e.a[i] ELSE RZero)
    [] e.op = "conv" -> \A i \in 1..Len(e.r) : Rounded(e.r[i], IF i <= n THEN Conv(e.a[i], e.p) ELSE RZero, e.p)
                                               /\ (e.exact => e.r[i] = (IF i <= n THEN e.a[i] ELSE RZero))
    [] e.op = "append" -> Same(e.r, e.a \o e.b)
    [] e.op = "fill" -> \A i \in 1..Len(e.r) : e.r[i] = e.s
    [] e.op = "axis" -> Same(e.r, VAxis(Len(e.r), e.i + 1))
    [] e.op = "consts" -> LET d == Len(e.zero) IN
         /\ Same(e.px, VAxis(d, 1)) /\ Same(e.nx, VNeg(VAxis(d, 1)))
         /\ (d >= 2 => Same(e.py, VAxis(d, 2)) /\ Same(e.ny, VNeg(VAxis(d, 2))))
         /\ (d >= 3 => Same(e.pz, VAxis(d, 3)) /\ Same(e.nz, VNeg(VAxis(d, 3))))
         /\ Same(e.zero, VZero(d)) /\ \A i \in 1..d : e.one[i] = ROne
         /\ (e.p # "i" => AllNaN(e.nan))
    [] e.op = "slice" -> Same(e.r, SubSeq(e.a, e.i + 1, e.i + Len(e.r)))
    (* swizzling an axis to the back is a cyclic shift and unswizzling undoes it *)
    [] e.op = "swizzle" -> /\ Same(e.un, e.a)
                           /\ Same(e.r, CASE e.i = 0 -> <<e.a[2], e.a[3], e.a[1]>>
                                          [] e.i = 1 -> <<e.a[3], e.a[1], e.a[2]>>
                                          [] OTHER -> e.a)
                           /\ Same(e.us, CASE e.i = 0 -> <<e.a[3], e.a[1], e.a[2]>>
                                           [] e.i = 1 -> <<e.a[2], e.a[3], e.a[1]>>
                                           [] OTHER -> e.a)
    (* lists of vectors *)
    [] e.op = "ladd" -> LET x == [i \in 1..n |-> VAdd(e.a[i], e.b)]
                        IN LRounded(e.r, x, e.p) /\ LRounded(e.r2, x, e.p)
    [] e.op = "lmul" -> LET x == [i \in 1..n |-> VScale(e.a[i], e.s)]
                        IN LRounded(e.r, x, e.p) /\ LRounded(e.r2, x, e.p)
    [] e.op = "average" ->
         \A j \in 1..Len(e.a[1]) :
           LET s == RSum([i \in 1..n |-> e.a[i][j]])
               sa == RSum([i \in 1..n |-> RAbs(e.a[i][j])])
           IN Near(e.r[j], RDiv(s, RInt(n)), RAdd(RMul(RMul(U(e.p), RInt(n)), sa), Tiny(e.p)))
    [] e.op = "vertices" -> Len(e.r) = n /\ \A i \in 1..n : Same(e.r[i], e.a[i])
=============================================================================

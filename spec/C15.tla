--------------------------------- MODULE C15 ---------------------------------
(* Solutions and inverses, or a report of singularity.                        *)
EXTENDS Vec

Bound(a) == RMul(RInt(8), MMaxAbs(a))
RECURSIVE Pw(_, _)
Pw(x, n) == IF n = 0 THEN ROne ELSE RMul(x, Pw(x, n - 1))
(* the smallest pivot is at least |det| / (8 max)^(n-1): far above rounding   *)
(* and above the threshold of the decomposition                               *)
Regular(e) == LET n == Len(e.a) d == RAbs(Det(e.a)) m == MMaxAbs(e.a) b == Pw(Bound(e.a), n - 1) IN
              \/ RLt(RMul(RMax(RMul(UnitOf(e.p), RMul(RInt(64), m)), RNum("0.0000000000001")), b), d)
              \* one entry per row and column: the pivots are the entries
              \/ /\ \A i \in 1..n : Cardinality({j \in 1..n : e.a[i][j] # RZero}) = 1
                 /\ \A j \in 1..n : Cardinality({i \in 1..n : e.a[i][j] # RZero}) = 1
                 /\ \A i, j \in 1..n : e.a[i][j] = RZero \/ RLt(RNum("0.0000000000001"), RAbs(e.a[i][j]))
(* singular in a way that elimination meets an exact zero: two equal rows, a  *)
(* zero row or column, or entries from {-1, 0, 1} times one number            *)
PlainSingular(e) ==
  LET n == Len(e.a) m == MMaxAbs(e.a) IN
  \/ \E i, j \in 1..n : i < j /\ e.a[i] = e.a[j]
  \/ \E i \in 1..n : \A j \in 1..n : e.a[i][j] = RZero
  \/ \E j \in 1..n : \A i \in 1..n : e.a[i][j] = RZero
  \/ n <= 4 /\ (\A i, j \in 1..n : RAbs(e.a[i][j]) \in {RZero, m}) /\ RIsInt(m) /\ RLe(m, RInt(8)) /\ Det(e.a) = RZero
Tl(e, s) == RMul(RInt(16 * Len(e.a)), TolOf(e.p, s))

PostC15(e) ==
  /\ CASE e.op = "solve" -> /\ ~e.ok => e.x = VZero(Len(e.a))
                            /\ e.ok => VFin(e.x) /\ VNear(MApply(e.a, e.x), e.b,
                                         Tl(e, RAdd(VMaxAbs(e.b), RMul(MMaxAbs(e.a), VMaxAbs(e.x)))))
       [] e.op = "invert" ->
            LET n == Len(e.a) c == RAdd(ROne, RMul(RInt(n), RMul(MMaxAbs(e.a), MMaxAbs(e.x)))) IN
            /\ ~e.ok => e.x = MId(n)
            /\ e.ok => /\ MFin(e.x)
                       /\ MNear(MMul(e.a, e.x), MId(n), Tl(e, c))
                       /\ MNear(MMul(e.x, e.a), MId(n), Tl(e, RMul(c, c)))
  /\ PlainSingular(e) => e.ok = FALSE
  /\ Regular(e) => e.ok = TRUE
=============================================================================

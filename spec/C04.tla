--------------------------------- MODULE C04 ---------------------------------
(* Ranking of vector components by value and by magnitude.                    *)
EXTENDS Vec

(* x is the k-th largest (k = 0 the largest) of the values s: at most k are   *)
(* larger and at least k + 1 are at least as large                            *)
IsRank(x, s, k) == /\ Cardinality({i \in 1..Len(s) : RLt(x, s[i])}) <= k
                   /\ Cardinality({i \in 1..Len(s) : RLe(x, s[i])}) >= k + 1
IsPerm(idx, n)  == {idx[i] : i \in 1..n} = 0..(n - 1)

PostC04(e) ==
  LET n == Len(e.a) abs == VAbs(e.a) IN
  CASE e.op = "find" ->       \* the indices for k = 0 .. n-1
         IsPerm(e.r, n) /\ \A k \in 0..(n - 1) : IsRank(e.a[e.r[k + 1] + 1], e.a, k)
    [] e.op = "findabs" ->
         IsPerm(e.r, n) /\ \A k \in 0..(n - 1) : IsRank(abs[e.r[k + 1] + 1], abs, k)
    [] e.op = "get" -> \A k \in 0..(n - 1) : IsRank(e.r[k + 1], e.a, k) /\ \E i \in 1..n : e.r[k + 1] = e.a[i]
    [] e.op = "getabs" -> \A k \in 0..(n - 1) : IsRank(RAbs(e.r[k + 1]), abs, k) /\ \E i \in 1..n : e.r[k + 1] = e.a[i]
    [] e.op = "axis" ->       \* a signed unit axis of a component of that rank
         \A k \in 0..(n - 1) : \E i \in 1..n :
            /\ IsRank(abs[i], abs, k)
            /\ e.r[k + 1] = (IF RSgn(e.a[i]) < 0 THEN VNeg(VAxis(n, i)) ELSE VAxis(n, i))
    [] e.op = "dflt" -> /\ IsRank(e.a[e.fm + 1], e.a, 0) /\ IsRank(abs[e.fa + 1], abs, 0)
                        /\ IsRank(e.gm, e.a, 0) /\ IsRank(RAbs(e.ga), abs, 0)
                        /\ \E i \in 1..n : IsRank(abs[i], abs, 0)
                             /\ e.ax = (IF RSgn(e.a[i]) < 0 THEN VNeg(VAxis(n, i)) ELSE VAxis(n, i))
=============================================================================

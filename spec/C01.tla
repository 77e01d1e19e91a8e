--------------------------------- MODULE C01 ---------------------------------
(* Ordering and equality of vectors, ranges, segments and matrices.          *)
EXTENDS Order

VecTol(e)   == CmpTol(e, RAdd(RMax(FinMax(e.a), FinMax(e.b)), e.eps))
RangeTol(e) == CmpTol(e, RAdd(RMax(FinMaxVs(e.a), FinMaxVs(e.b)), e.eps))
Exact(S)    == CHOOSE x \in S : TRUE

PostC01(e) ==
  CASE e.op = "cmp" -> e.r \in Lex(e.a, e.b, e.eps, VecTol(e))
    [] e.op = "iseq" -> \E c \in Lex(e.a, e.b, e.eps, VecTol(e)) : e.r <=> c = 0
    [] e.op = "ops" -> OpsAgree(LexExact(e.a, e.b), e) /\ e.dflt = LexExact(e.a, e.b)
    [] e.op = "range" -> e.r \in LexRange(e.a, e.b, e.eps, RangeTol(e), 1)
    [] e.op = "segcmp" -> e.r \in LexRange(e.a, e.b, e.eps, RangeTol(e), 1)
    [] e.op = "segeq" -> \E c \in LexRange(e.a, e.b, e.eps, RangeTol(e), 1) : e.r <=> c = 0
    [] e.op = "segops" -> OpsAgree(Exact(LexRange(e.a, e.b, RZero, RZero, 1)), e)
    [] e.op = "matcmp" -> e.r \in LexRange(MTrans(e.a), MTrans(e.b), e.eps, RangeTol(e), 1)   \* column by column
    [] e.op = "mateq" -> \E c \in LexRange(MTrans(e.a), MTrans(e.b), e.eps, RangeTol(e), 1) : e.r <=> c = 0
    [] e.op = "matops" -> LET c == Exact(LexRange(MTrans(e.a), MTrans(e.b), RZero, RZero, 1))
                          IN (e.eq <=> c = 0) /\ (e.ne <=> c # 0)
    (* sorting with the order puts equal vectors together and is a permutation *)
    [] e.op = "sort" -> /\ Len(e.r) = Len(e.a)
                        /\ \A i \in 1..(Len(e.r) - 1) : LexExact(e.r[i], e.r[i + 1]) <= 0
                        /\ \A i \in 1..Len(e.a) :
                             Cardinality({j \in 1..Len(e.a) : LexExact(e.a[j], e.a[i]) = 0})
                             = Cardinality({j \in 1..Len(e.r) : LexExact(e.r[j], e.a[i]) = 0})
=============================================================================

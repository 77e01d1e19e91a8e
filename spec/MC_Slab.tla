------------------------------- MODULE MC_Slab -------------------------------
(***************************************************************************)
(* Design model of the ray and box intersection: the candidate plane       *)
(* procedure of the library in exact arithmetic, step by step over a       *)
(* lattice of rays, against the intersection of the parameter intervals of *)
(* the slabs (the definition). Rays are written out and replayed.          *)
(***************************************************************************)
EXTENDS Vec
CONSTANTS K, Dim, OutFile
VARIABLES o, d, pc, cand, best, res
vars == <<o, d, pc, cand, best, res>>
Lo == RZero   Hi == RTwo                                       \* the box [0, 2]^Dim
Crd == {RInt(x) : x \in -K..(K + 2)}
Dirs == [1..Dim -> {RInt(x) : x \in -2..2}]
Init == /\ o \in [1..Dim -> Crd] /\ d \in Dirs /\ (\E i \in 1..Dim : d[i] # RZero)
        /\ pc = "planes" /\ cand = <<>> /\ best = 0 /\ res = RNaN
In(i) == RLe(Lo, o[i]) /\ RLe(o[i], Hi)
AllIn == \A i \in 1..Dim : In(i)
Planes == /\ pc = "planes" /\ pc' = "choose"
          /\ cand' = [i \in 1..Dim |->
               LET f == IF RLt(o[i], Lo) THEN Lo ELSE IF RLt(Hi, o[i]) THEN Hi
                        ELSE IF RSgn(d[i]) < 0 THEN Lo ELSE Hi
               IN IF d[i] # RZero THEN RDiv(RSub(f, o[i]), d[i]) ELSE IF In(i) THEN RInf ELSE RInt(-1)]
          /\ UNCHANGED <<o, d, best, res>>
Choose == /\ pc = "choose" /\ pc' = "test"
          /\ best' = IF AllIn THEN CHOOSE i \in 1..Dim : \A j \in 1..Dim : RLe(cand[i], cand[j])
                     ELSE LET S == {i \in 1..Dim : ~In(i)} IN CHOOSE i \in S : \A j \in S : RLe(cand[j], cand[i])
          /\ UNCHANGED <<o, d, cand, res>>
Test == /\ pc = "test" /\ pc' = "done"
        /\ LET t == cand[best] IN
           res' = IF RSgn(t) < 0 THEN RNaN
                  ELSE IF AllIn THEN t
                  ELSE IF \A i \in 1..Dim : i = best \/ LET c == RAdd(o[i], RMul(t, d[i])) IN RLe(Lo, c) /\ RLe(c, Hi)
                       THEN t ELSE RNaN
        /\ UNCHANGED <<o, d, cand, best>>
Next == Planes \/ Choose \/ Test
(* the set of parameters t >= 0 with o + t d in the box is the interval [Enter, Leave] *)
Slab(i) == IF d[i] = RZero THEN (IF In(i) THEN <<RNInf, RInf>> ELSE <<RInf, RNInf>>)
           ELSE LET a == RDiv(RSub(Lo, o[i]), d[i]) b == RDiv(RSub(Hi, o[i]), d[i]) IN <<RMin(a, b), RMax(a, b)>>
Enter == SetMax({RZero} \cup {Slab(i)[1] : i \in 1..Dim})
Leave == SetMin({Slab(i)[2] : i \in 1..Dim})
Def == IF RLt(Leave, Enter) THEN RNaN ELSE IF AllIn THEN Leave ELSE Enter
Right == pc = "done" => res = Def
Emit == pc = "planes" => REmitR(OutFile, <<o, d>>)
=============================================================================

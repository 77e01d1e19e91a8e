------------------------------ MODULE MC_Affine -----------------------------
(***************************************************************************)
(* The register machine of transformations: a word over generators is      *)
(* built letter by letter, as a matrix (by multiplication from the left)   *)
(* and as the images of four affinely independent points (by moving the    *)
(* points). Checked: the matrix maps the points to the tracked images,     *)
(* determinants multiply, quarter turns have order four, mirrors are       *)
(* involutions. All words are written out for replay on the library.       *)
(***************************************************************************)
EXTENDS C16
CONSTANTS Len0, OutFile
VARIABLES word, mt, pts
Quart(k) == [op |-> "quarter", k |-> k, n |-> 1, id |-> k]
Mirr(k)  == [op |-> "mirror", k |-> k, id |-> 3 + k]
Tr(k)    == [op |-> "translate", d |-> VScale(VAxis(3, k), RInt(k)), id |-> 6 + k]
Sc       == [op |-> "scale", d |-> <<RTwo, ROne, RInt(3)>>, id |-> 10]
Sh(k)    == [op |-> "shear", k |-> k, s |-> ROne, id |-> 10 + k]
Gens == {Quart(k) : k \in 1..3} \cup {Mirr(k) : k \in 1..3} \cup {Tr(k) : k \in 1..3} \cup {Sc} \cup {Sh(k) : k \in 1..3}
(* the matrix of a generator, from its action on the origin and the axes *)
GMat(g) == LET o == GenPt(g, VZero(3)) IN
           Affine(MTrans([j \in 1..3 |-> VSub(GenPt(g, VAxis(3, j)), o)]), o)
GTab == [g \in Gens |-> GMat(g)]
Init == word = <<>> /\ mt = MId(4) /\ pts = Start
Next == /\ Len(word) < Len0
        /\ \E g \in Gens : /\ word' = Append(word, g)
                           /\ mt' = MMul(GTab[g], mt)
                           /\ pts' = [i \in 1..4 |-> GenPt(g, pts[i])]
Agree == \A i \in 1..4 : MPoint(mt, Start[i]) = pts[i]
Dets  == Det(MLin(mt)) = LET F[i \in 0..Len(word)] == IF i = 0 THEN ROne ELSE RMul(F[i - 1], Det(MLin(GTab[word[i]]))) IN F[Len(word)]
Orders == word = <<>> => \A k \in 1..3 : LET q == GTab[Quart(k)] m == GTab[Mirr(k)] IN
            /\ MMul(MMul(q, q), MMul(q, q)) = MId(4) /\ MMul(q, q) # MId(4) /\ MMul(m, m) = MId(4)
Emit == Len(word) = Len0 => REmit(OutFile, <<Len0, [i \in 1..Len0 |-> word[i].id]>>)
=============================================================================

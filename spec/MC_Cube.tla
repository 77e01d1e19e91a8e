------------------------------- MODULE MC_Cube ------------------------------
(* Builds a box surface face by face, with every possible list of corners.    *)
(* Checked: the face condition determines the corners up to the start, two    *)
(* faces never run through an edge in the same direction, and the six faces   *)
(* close the surface: every edge is run through once in each direction.       *)
EXTENDS Cube
VARIABLES faces
Quads(n) == {q \in [1..4 -> Corners] : IsFace(q, n)}
AllQuads == [n \in Axes6 |-> Quads(n)]
Init == faces = <<>>
Missing == Axes6 \ {faces[i][2] : i \in 1..Len(faces)}
Next == /\ Missing # {}
        /\ LET n == CHOOSE m \in Missing : TRUE IN \E q \in AllQuads[n] : faces' = Append(faces, <<q, n>>)
Four == \A n \in Axes6 : Cardinality(AllQuads[n]) = 4
Simple == \A i, j \in 1..Len(faces) : i # j => DirEdges(faces[i][1]) \cap DirEdges(faces[j][1]) = {}
Closed == Len(faces) = 6 =>
  LET D == UNION {DirEdges(faces[i][1]) : i \in 1..6} IN
  /\ Cardinality(D) = 24 /\ \A d \in D : <<d[2], d[1]>> \in D
  /\ {{d[1], d[2]} : d \in D} = CubeEdges /\ Cardinality(CubeEdges) = 12
=============================================================================

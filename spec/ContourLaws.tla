---------------------------- MODULE ContourLaws ----------------------------
(* Contours of a field given at the nodes of a mesh, drawn cell by cell: every   *)
(* cell joins the crossings of the level on its four edges.  Afterwards every    *)
(* edge whose ends are on different sides has exactly one crossing, crossings    *)
(* inside the mesh join two segments and those on its border one, and the line   *)
(* between two nodes crosses the contour an odd number of times exactly when the *)
(* nodes are on different sides.  Mesh = "xy" draws z[x][y] at (x, y); "yx"      *)
(* draws it at (y, x) (wrong unless symmetric); "short" omits the last column.   *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS N, Mesh, Emitting
VARIABLES z, cell, segs
vars == <<z, cell, segs>>
Nodes == (0..(N - 1)) \X (0..(N - 1))
Init == /\ z \in [Nodes -> {0, 1}] /\ cell = 0 /\ segs = {}
        /\ Emitting => PrintT("SCN " \o ToJson([up |-> {k \in Nodes : z[k] = 1}]))
At(k) == IF Mesh = "yx" THEN z[<<k[2], k[1]>>] ELSE z[k]
M == N - 1
Cells == IF Mesh = "short" THEN M * M - M ELSE M * M
\* the edges of a cell in order around it
Around(i, j) == <<{<<i, j>>, <<i + 1, j>>}, {<<i + 1, j>>, <<i + 1, j + 1>>}, {<<i + 1, j + 1>>, <<i, j + 1>>}, {<<i, j + 1>>, <<i, j>>}>>
Cuts(e) == Cardinality({At(k) : k \in e}) = 2
Step == /\ cell < Cells
        /\ LET e == SelectSeq(Around(cell \div M, cell % M), Cuts)
           IN  segs' = segs \cup (CASE Len(e) = 0 -> {}
                                    [] Len(e) = 2 -> {{e[1], e[2]}}
                                    [] Len(e) = 4 -> {{e[1], e[2]}, {e[3], e[4]}})
        /\ cell' = cell + 1 /\ UNCHANGED z
Spec == Init /\ [][Step]_vars
Done == cell = Cells
H == {{<<i, j>>, <<i + 1, j>>} : i \in 0..(N - 2), j \in 0..(N - 1)}
V == {{<<i, j>>, <<i, j + 1>>} : i \in 0..(N - 1), j \in 0..(N - 2)}
Border(e) == \E c \in {1, 2}, m \in {0, N - 1} : \A k \in e : k[c] = m
Verts == UNION segs
Differ(e) == Cardinality({z[k] : k \in e}) = 2
Complete == Done => Verts = {e \in H \cup V : Differ(e)}
Joined == Done => \A e \in Verts : Cardinality({s \in segs : e \in s}) = (IF Border(e) THEN 1 ELSE 2)
Parity == Done => \A a, b \in Nodes : (a[2] = b[2] /\ a[1] < b[1]) =>
            ((z[a] # z[b]) = (Cardinality({e \in Verts \cap H : \A k \in e : k[2] = a[2] /\ a[1] <= k[1] /\ k[1] <= b[1]}) % 2 = 1))
=============================================================================

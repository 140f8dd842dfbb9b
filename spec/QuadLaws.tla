------------------------------ MODULE QuadLaws ------------------------------
(* Laws of the two grids over all bounding boxes up to a size, and the        *)
(* scenarios (one per bounding box and cell size) that the real code replays. *)
EXTENDS Quadrat, Json
CONSTANTS MaxU, MaxV, MaxH, MaxCells, Variant
VARIABLES kind, g
vars == <<kind, g>>

Rects == {[U |-> U, V |-> V, nc |-> a, nr |-> b, w |-> <<U, a>>, h |-> <<V, b>>] :
              U \in 0..MaxU, V \in 0..MaxV, a \in 1..MaxCells, b \in 1..MaxCells}
         \cup {[U |-> U, V |-> V, nc |-> RCount(U, a, 2), nr |-> RCount(V, b, 2),
                w |-> <<a, 2>>, h |-> <<b, 2>>] :
              U \in 0..MaxU, V \in 0..MaxV, a \in 1..5, b \in 1..5}
Hexes == {[U |-> U, V |-> V, s |-> s] : U \in 0..MaxU, V \in 0..MaxV, s \in 1..MaxH}

Init == \/ kind = "rect" /\ g \in Rects
        \/ kind = "hex" /\ g \in Hexes
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Box == (0..g.U) \X (0..g.V)
Rule(p) == IF Variant = "noclamp" /\ g.w[1] > 0
           THEN (p[1] * g.w[2]) \div g.w[1] + RRule(<<0, p[2]>>, g)
           ELSE RRule(p, g)
\* every point lies in a cell, the rule picks one of those, ids stay in range
RectTotal == kind = "rect" => \A p \in Box : RCells(p, g) # {} /\ Rule(p) \in RCells(p, g)
\* extents add up: the cells tile (or, with given sizes, cover) the bounding box
RectCover == kind = "rect" => g.nc * g.w[1] >= g.U * g.w[2] /\ g.nr * g.h[1] >= g.V * g.h[2]
\* no cell more than needed
RectTight == kind = "rect" => (g.nc - 1) * g.w[1] <= g.U * g.w[2] /\ (g.nr - 1) * g.h[1] <= g.V * g.h[2]

Grid == HGrid(g.U, IF Variant = "onerow" THEN Max2(0, g.V - g.s) ELSE g.V, g.s)
HexCover == kind = "hex" => \A p \in Box : HCells(p, Grid, g.s) # {}
\* a point in the interior of a hexagon is in no other
HexTile == kind = "hex" => \A p \in Box : Cardinality(HCells(p, Grid, g.s)) <= 3
HexNum == kind = "hex" => Cardinality(HGrid(g.U, g.V, g.s)) =
             (IF Variant = "num" THEN LET n == HCols(g.U, g.s) IN HEven(g.V, g.s) * (n \div 2) + HOdd(g.V, g.s) * ((n \div 2) + (n % 2))
              ELSE HNum(g.U, g.V, g.s))
Emit == PrintT("SCN " \o ToJson([kind |-> kind, g |-> g]))
=============================================================================

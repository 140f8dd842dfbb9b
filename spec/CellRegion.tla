---------------------------- MODULE CellRegion ----------------------------
(* A region given twice: as a set of unit cells, and as the polygon (parts with *)
(* holes) obtained by walking its boundary with the region on the left.  Area,  *)
(* bounding box, centroid and membership computed from the rings agree with     *)
(* those of the cells, for every set of cells without corner contacts.          *)
(* Holes = "sub": the area of a part is that of its shell less its holes;        *)
(* "all": all rings are added (wrong); Wise = "left" keeps the region on the    *)
(* left, so that shells run counter-clockwise and holes clockwise.              *)
EXTENDS Region, Json
CONSTANTS W, H, Holes, Emitting
VARIABLES c, todo, ring, rings, reg
vars == <<c, todo, ring, rings, reg>>
Cells == (0..(W - 1)) \X (0..(H - 1))
\* no two cells of the region (or of its complement) touch at a corner only
Tidy(C) == \A i \in -1..(W - 1), j \in -1..(H - 1) :
             LET a == <<i, j>> \in C  b == <<i + 1, j>> \in C  d == <<i, j + 1>> \in C  e == <<i + 1, j + 1>> \in C
             IN  ~(a /\ e /\ ~b /\ ~d) /\ ~(b /\ d /\ ~a /\ ~e)
Edges(C) == UNION {
    (IF <<k[1], k[2] - 1>> \notin C THEN {<<<<k[1], k[2]>>, <<k[1] + 1, k[2]>>>>} ELSE {})
    \cup (IF <<k[1] + 1, k[2]>> \notin C THEN {<<<<k[1] + 1, k[2]>>, <<k[1] + 1, k[2] + 1>>>>} ELSE {})
    \cup (IF <<k[1], k[2] + 1>> \notin C THEN {<<<<k[1] + 1, k[2] + 1>>, <<k[1], k[2] + 1>>>>} ELSE {})
    \cup (IF <<k[1] - 1, k[2]>> \notin C THEN {<<<<k[1], k[2] + 1>>, <<k[1], k[2]>>>>} ELSE {}) : k \in C}
Init == /\ c \in {C \in SUBSET Cells : C # {} /\ Tidy(C)}
        /\ todo = Edges(c) /\ ring = <<>> /\ rings = <<>> /\ reg = <<>>
First(S) == CHOOSE e \in S : \A f \in S : Lex(e[1], f[1]) \/ e[1] = f[1]
Straight(r) == [i \in 1..Len(r) |-> LET p == r[IF i = 1 THEN Len(r) ELSE i - 1] IN Cross(p, r[i], r[Nxt(r, i)]) = 0]
RECURSIVE Drop(_, _, _)
Drop(r, s, i) == IF i > Len(r) THEN <<>> ELSE (IF s[i] THEN <<>> ELSE <<r[i]>>) \o Drop(r, s, i + 1)
Walk ==
    /\ todo # {}
    /\ IF ring = <<>> THEN LET e == First(todo) IN ring' = <<e[1], e[2]>> /\ todo' = todo \ {e} /\ rings' = rings
       ELSE LET e == CHOOSE f \in todo : f[1] = ring[Len(ring)]
                closed == e[2] = ring[1]
            IN  /\ todo' = todo \ {e}
                /\ ring' = IF closed THEN <<>> ELSE Append(ring, e[2])
                /\ rings' = IF closed THEN Append(rings, Drop(ring, Straight(ring), 1)) ELSE rings
    /\ UNCHANGED <<c, reg>>
Shells == {k \in 1..Len(rings) : Area2(rings[k]) > 0}
\* the smallest shell around a hole
Home(k) == CHOOSE m \in {x \in Shells : InRing(rings[k][1], rings[x])} :
              \A x \in {y \in Shells : InRing(rings[k][1], rings[y])} : Area2(rings[m]) <= Area2(rings[x])
Group == /\ todo = {} /\ reg = <<>>
         /\ reg' = [i \in 1..Cardinality(Shells) |->
                       LET k == CHOOSE x \in Shells : Cardinality({y \in Shells : y < x}) = i - 1
                           hs == {h \in (1..Len(rings)) \ Shells : Home(h) = k}
                       IN  <<rings[k]>> \o [j \in 1..Cardinality(hs) |-> rings[CHOOSE h \in hs : Cardinality({y \in hs : y < h}) = j - 1]]]
         /\ Emitting => PrintT("SCN " \o ToJson([reg |-> reg']))
         /\ UNCHANGED <<c, todo, ring, rings>>
Spec == Init /\ [][Walk \/ Group]_vars
Done == reg # <<>>
A2 == IF Holes = "sub" THEN RegArea2(reg) ELSE SumSeq([k \in 1..Len(rings) |-> RingArea2(rings[k])])
Area == Done => A2 = 2 * Cardinality(c)
Big == ScaleReg(reg, 2)
Member == Done => \A k \in (-1..W) \X (-1..H) : InReg(<<2 * k[1] + 1, 2 * k[2] + 1>>, Big) = (k \in c) /\ InRegOpen(<<2 * k[1] + 1, 2 * k[2] + 1>>, Big) = (k \in c)
Box == Done => RegBBox(reg) = <<MinSet({k[1] : k \in c}), MinSet({k[2] : k \in c}), MaxSet({k[1] + 1 : k \in c}), MaxSet({k[2] + 1 : k \in c})>>
RECURSIVE SumC(_, _)
SumC(S, v) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN (2 * k[v]) + 1 + SumC(S \ {k}, v)
Centre == Done => RegCentroid(reg) = <<Rat(SumC(c, 1), 2 * Cardinality(c)), Rat(SumC(c, 2), 2 * Cardinality(c))>>
=============================================================================

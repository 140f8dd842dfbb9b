-------------------------------- MODULE KNN --------------------------------
(* The tree-based k-nearest-neighbour query with self-exclusion.             *)
(* A spatial tree answers a query for K neighbours with ANY list of K points *)
(* in non-decreasing distance order that omits no closer point: among ties   *)
(* (in particular coincident points) the order is the tree's own business,   *)
(* and the query point need not come first, or come at all.                  *)
(* Removal = "mask": drop the point itself where it occurs, otherwise the    *)
(* last column.  Removal = "first": drop the first column (wrong).           *)
EXTENDS Geo, Json, Functions

CONSTANTS NMax, G, Removal, Emitting

VARIABLES pts, k, row, ans, pc
vars == <<pts, k, row, ans, pc>>

Inj(K, n) == {s \in [1..K -> 1..n] : \A i, j \in 1..K : i # j => s[i] # s[j]}
TreeAnswer(p, i, K, s) ==
    /\ \A a \in 1..(K - 1) : Dist2(p[i], p[s[a]]) <= Dist2(p[i], p[s[a + 1]])
    /\ \A j \in 1..Len(p) : (~\E a \in 1..K : s[a] = j) =>
                              Dist2(p[i], p[j]) >= Dist2(p[i], p[s[K]])
RemoveSelf(i, s) ==
    LET K == Len(s)
        at == {a \in 1..K : s[a] = i}
        d == IF Removal = "first" THEN 1 ELSE IF at = {} THEN K ELSE CHOOSE a \in at : TRUE
    IN  [a \in 1..(K - 1) |-> IF a < d THEN s[a] ELSE s[a + 1]]

Init == /\ \E n \in 2..NMax : pts \in [1..n -> ((0..G) \X (0..1))] /\ k \in 1..(n - 1)
        /\ row = <<>> /\ ans = <<>> /\ pc = "query"
        /\ (Emitting /\ k = 1) => PrintT("SCN " \o ToJson([i \in 1..Len(pts) |-> pts[i]]))
Query == /\ pc = "query"
         /\ \E i \in 1..Len(pts) : \E s \in Inj(k + 1, Len(pts)) :
               /\ TreeAnswer(pts, i, k + 1, s)
               /\ row' = <<i>> \o s
         /\ pc' = "mask" /\ UNCHANGED <<pts, k, ans>>
Mask == /\ pc = "mask"
        /\ ans' = RemoveSelf(Head(row), Tail(row))
        /\ pc' = "done" /\ UNCHANGED <<pts, k, row>>
Spec == Init /\ [][Query \/ Mask]_vars

IsKNN(p, i, s) ==
    /\ \A a \in 1..Len(s) : s[a] # i
    /\ \A a, b \in 1..Len(s) : a # b => s[a] # s[b]
    /\ \A a \in 1..(Len(s) - 1) : Dist2(p[i], p[s[a]]) <= Dist2(p[i], p[s[a + 1]])
    /\ \A j \in (1..Len(p)) \ ({i} \cup {s[a] : a \in 1..Len(s)}) :
          Dist2(p[i], p[j]) >= Dist2(p[i], p[s[Len(s)]])
Correct == pc = "done" => IsKNN(pts, Head(row), ans)
=============================================================================

------------------------------- MODULE RankP -------------------------------
(* The Monte Carlo p-value (number of simulated values at least as large as    *)
(* observed + 1) / (replications + 1).  If the observation is one of m + 1     *)
(* exchangeable values, at most j of them can have a p-value <= j / (m + 1):   *)
(* the test keeps its level for every outcome, ties included.  Counting only   *)
(* strictly larger values, or leaving out the + 1, breaks that.                *)
EXTENDS Num
CONSTANTS M, V, Rule
VARIABLES w
vars == <<w>>
Ge(x, i) == Cardinality({k \in 1..Len(x) : k # i /\ x[k] >= x[i]})
Gt(x, i) == Cardinality({k \in 1..Len(x) : k # i /\ x[k] > x[i]})
\* numerator over M + 1
P(x, i) == CASE Rule = "geq" -> Ge(x, i) + 1
             [] Rule = "gt" -> Gt(x, i) + 1
             [] Rule = "noplus" -> Ge(x, i)
Init == w \in [1..(M + 1) -> V]
Next == UNCHANGED w
Spec == Init /\ [][Next]_vars
Level == \A j \in 1..(M + 1) : Cardinality({i \in 1..(M + 1) : P(w, i) <= j}) <= j
Bounds == \A i \in 1..(M + 1) : P(w, i) \in 1..(M + 1)
Largest == \A i \in 1..(M + 1) : (\A k \in 1..(M + 1) : w[k] <= w[i]) /\ Gt(w, i) = 0 /\ Ge(w, i) = 0 => P(w, i) = 1
=============================================================================

---------------------------- MODULE DensityLaws ----------------------------
(* The kernel tables are what they are said to be: exp is multiplicative, every *)
(* kernel is non-increasing, and its integral over the plane is one (a Riemann   *)
(* sum over a lattice of spacing 1/Fine of a bandwidth).                         *)
EXTENDS Density
CONSTANTS Fine, Wrong
VARIABLES name, row, acc
vars == <<name, row, acc>>
Names == {"gaussian", "epa", "biweight", "triweight", "tri"}
N == 5 * Fine
Init == name \in Names /\ row = -N /\ acc = 0
\* Wrong: the bandwidth taken for the radius of the kernel
K(x, y) == LET q == (1000 * (x * x + y * y)) \div (Fine * Fine)
           IN  IF Wrong /\ name = "epa" THEN (Comp(q, 1, 1) * 2) \div 5 ELSE Kern(name, q)
RowSum(y) == SumSeq([i \in 1..(2 * N + 1) |-> K(i - N - 1, y)])
Next == row <= N /\ acc' = acc + RowSum(row) \div 10 /\ row' = row + 1 /\ UNCHANGED name
Spec == Init /\ [][Next]_vars
\* sum of kern / Fine^2 = pi
Unit == row > N => LET t == (acc \div (Fine * Fine)) * 10 IN 31416 - 350 <= t /\ t <= 31416 + 350
ASSUME \A i, j \in 0..80 : Abs((ExpTab[i + 1] * ExpTab[j + 1]) \div S - ExpTab[i + j + 1]) <= 2
ASSUME Abs(ExpTab[17] - 3679) <= 1
ASSUME \A k \in Names, q \in 0..300 : Kern(k, 40 * q) >= Kern(k, 40 * (q + 1))
\* a wider kernel has the heavier tail and the kernels differ
ASSUME Kern("gaussian", 0) = 5000 /\ Kern("tri", 0) = 5000 /\ Kern("epa", 0) = 4000
=============================================================================

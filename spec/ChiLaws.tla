------------------------------ MODULE ChiLaws ------------------------------
(* Laws of the chi-square statistic over all tables of counts up to a size.   *)
EXTENDS Quadrat, Json
CONSTANTS MaxK, MaxN
VARIABLES c
vars == <<c>>
Init == c \in UNION {[1..k -> 0..MaxN] : k \in 2..MaxK}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
n == SumSeq(c)
InScope == n >= 1 /\ n <= MaxN
\* the statistic is the sum of the contributions
Sum == InScope => Chi2(c) = SumRatSeq([i \in 1..Len(c) |-> Contrib(c, i)])
\* it is 0 exactly for equal counts and largest when all points share a cell
Zero == InScope => /\ Chi2(c)[1] >= 0
                   /\ (Chi2(c)[1] = 0 <=> \A i \in 1..Len(c) : c[i] * Len(c) = n)
                   /\ RLeq(Chi2(c), RInt(n * (Len(c) - 1)))
\* the recursive set of attainable sums of squares contains the table's
Att == InScope => SumSeq([i \in 1..Len(c) |-> c[i] * c[i]]) \in SqSums(n, Len(c))
\* the tail decreases with the statistic and increases with the degrees of freedom
TailLaw == InScope => LET h == (500 * Chi2(c)[1]) \div Chi2(c)[2]
                       d == Len(c) - 1
                   IN  h > 19000 \/ (/\ ChiTail(h, d) + ChiSlack(h, d) >= ChiTail(h + 500, d)
                                    /\ ChiTail(h, d) <= ChiTail(h, d + 1) + ChiSlack(h, d)
                                    /\ ChiTail(h, d) \in 0..10000)
Emit == InScope /\ Len(c) > 2 => PrintT("SCN " \o ToJson([c |-> c]))
=============================================================================

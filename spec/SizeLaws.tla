------------------------------ MODULE SizeLaws ------------------------------
(* All combinations of size and intensity: which are rejected, and the shape  *)
(* of the others; near-equal groups.                                          *)
EXTENDS Samplers, Json
CONSTANTS Ns, Reps, Intens, Areas2
IntensDef == {<<1, 4>>, <<1, 1>>, <<3, 10>>}
VARIABLES size, inten, a2
vars == <<size, inten, a2>>
Sizes == {[k |-> "none"], [k |-> "bad"]} \cup {[k |-> "int", n |-> n] : n \in Ns \cup Reps}
         \cup {[k |-> "pair", n |-> n, r |-> r] : n \in Ns, r \in Reps}
Init == size \in Sizes /\ inten \in {<<>>} \cup Intens /\ a2 \in Areas2
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
nr == Parse(size, inten, a2)
\* only over- or undetermined requests are rejected
Rejected == nr = <<>> <=> (size.k = "bad" \/ (size.k = "pair" /\ inten # <<>>))
\* with an intensity the number of points follows the area, without it the area is irrelevant
Follows == nr # <<>> /\ inten = <<>> => \A b \in Areas2 : Parse(size, inten, b) = nr
Density == nr # <<>> /\ inten # <<>> => 2 * inten[2] * nr[1] <= inten[1] * a2 /\ inten[1] * a2 < 2 * inten[2] * (nr[1] + 1)
Shape == nr # <<>> => LET s == ShapeOf(nr) IN (Len(s) = 2 <=> nr[2] = 1) /\ s[Len(s)] = 2 /\ s[Len(s) - 1] = nr[1]
Groups == nr # <<>> => \A k \in 1..5 : LET s == SplitSizes(nr[1], k)
                                       IN  SumSeq(s) = nr[1] /\ \A i, j \in 1..k : Abs(s[i] - s[j]) <= 1
\* refuted: the number of points does not depend on the request alone
FloorEverywhere == nr # <<>> => \A b \in Areas2 : Parse(size, inten, b) = nr
Emit == PrintT("SCN " \o ToJson([size |-> size, inten |-> inten, a2 |-> a2]))
=============================================================================

------------------------------ MODULE Strauss ------------------------------
(* Birth and death in the hard-core case (inhibition parameter 0) over a small *)
(* set of places; Close are the pairs of places nearer than the radius.  A    *)
(* birth that would create a close pair is never accepted; the death of a      *)
(* point of a close pair is an error (the sampler gives up).                   *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Places, Target, Variant
VARIABLES pts, born, seen, err
vars == <<pts, born, seen, err>>
\* places on a line, neighbours are close
Close(a, b) == a # b /\ (a - b) \in {-1, 1}
Pairs(S) == {p \in SUBSET S : Cardinality(p) = 2 /\ \E a, b \in p : Close(a, b)}
Init == /\ pts \in SUBSET Places
        /\ Cardinality(pts) = Target + 1
        /\ born = {} /\ seen = {} /\ err = FALSE
NewPairs(p) == Cardinality(Pairs(pts \cup {p})) - Cardinality(Pairs(pts))
Accept(p) == CASE Variant = "ok" -> NewPairs(p) = 0
               [] Variant = "total" -> Cardinality(Pairs(pts \cup {p})) # 1    \* gamma ^ wrong exponent
Birth == /\ ~err
         /\ \E p \in Places \ pts : Accept(p) /\ pts' = pts \cup {p} /\ born' = born \cup {p}
         /\ UNCHANGED <<seen, err>>
Death == /\ ~err /\ Cardinality(pts) > Target
         /\ \E p \in pts :
                IF \E x \in Pairs(pts) : p \in x
                THEN err' = TRUE /\ UNCHANGED <<pts, born, seen>>
                ELSE pts' = pts \ {p} /\ seen' = seen \cup {p} /\ born' = born \ {p} /\ UNCHANGED err
Next == Birth \/ Death
Spec == Init /\ [][Next]_vars
\* a point born by the process is never in a close pair with another point
BornAreFree == ~err => \A x \in Pairs(pts) : x \cap born = {}
NeverMore == [][Cardinality(Pairs(pts')) <= Cardinality(Pairs(pts))]_vars
\* the sampler gives up or keeps the pairs it started with; without a pair it
\* never gives up
GivesUpOnlyOnPairs == err => Pairs(pts) # {}
HardCoreKept == [][Pairs(pts) = {} => Pairs(pts') = {} /\ ~err']_vars
Size == Cardinality(pts) >= Target
=============================================================================

------------------------------ MODULE DrawLoop ------------------------------
(* Draw until inside: rounds of candidates, those in the window are kept, the *)
(* first n are the realization.  A cluster process draws Parents(n) circles   *)
(* per round.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Par, MaxRounds, Variant
VARIABLES n, par, kept, round, out
vars == <<n, par, kept, round, out>>
CeilDiv(a, b) == (a + b - 1) \div b
Children == CeilDiv(n, par)
PerRound == CASE Variant = "floor" -> (n \div Children) * Children     \* too few circles
              [] OTHER -> CeilDiv(n, Children) * Children
Init == n \in 1..N /\ par \in 1..Par /\ kept = <<>> /\ round = 0 /\ out = <<>>
\* an arbitrary subset of the candidates of a round lies in the window
Round == /\ out = <<>> /\ Len(kept) < n /\ round < MaxRounds
         /\ \E k \in 0..PerRound : kept' = kept \o [i \in 1..k |-> <<round, i>>]
         /\ round' = round + 1 /\ UNCHANGED <<n, par, out>>
Finish == /\ out = <<>> /\ Len(kept) >= n
          /\ out' = (IF Variant = "keepall" THEN kept ELSE SubSeq(kept, 1, n)) /\ UNCHANGED <<n, par, kept, round>>
Next == Round \/ Finish
Spec == Init /\ [][Next]_vars
Count == out # <<>> => Len(out) = n
\* when nothing is rejected one round suffices, of at most par circles
OneRound == round = 1 /\ Len(kept) = PerRound => Len(kept) >= n
AtMost == CeilDiv(n, Children) <= par
Emit == round = 0 /\ par <= n => PrintT("SCN " \o ToJson([n |-> n, par |-> par]))
=============================================================================

------------------------------ MODULE Envelope ------------------------------
(* A Ripley-type test as a transition system: workers take replications in    *)
(* any order and finish in any order; when all are done the test compares the *)
(* curves with the observed one, support value by support value, and cuts     *)
(* everything at the first undefined value of the observed curve.             *)
(* Variants that must be refuted: "axis" cuts the replications instead of the *)
(* support values, "early" compares before all workers are done, "keepp"      *)
(* leaves the p-values uncut.                                                 *)
EXTENDS Num
CONSTANTS R, M, Workers, Vals, Variant
VARIABLES obs, curve, todo, run, sims, out
vars == <<obs, curve, todo, run, sims, out>>
Undef == 99
\* curve[k]: what replication k will produce
Init == /\ obs \in [1..M -> Vals \cup {Undef}]
        /\ curve \in [1..R -> [1..M -> Vals]]
        /\ todo = 1..R /\ run = [w \in Workers |-> 0]
        /\ sims = [k \in 1..R |-> <<>>] /\ out = <<>>
Take(w) == /\ run[w] = 0 /\ \E k \in todo : run' = [run EXCEPT ![w] = k] /\ todo' = todo \ {k}
           /\ UNCHANGED <<obs, curve, sims, out>>
Finish(w) == /\ run[w] # 0
             /\ sims' = [sims EXCEPT ![run[w]] = curve[run[w]]]
             /\ run' = [run EXCEPT ![w] = 0]
             /\ UNCHANGED <<obs, curve, todo, out>>
Done(k) == sims[k] # <<>>
Cut == IF \A i \in 1..M : obs[i] # Undef THEN M ELSE MinSet({i \in 1..M : obs[i] = Undef}) - 1
Count(i) == Cardinality({k \in 1..R : Done(k) /\ obs[i] # Undef /\ sims[k][i] >= obs[i]}) + 1
\* numerator of min(p, 1 - p) over R + 1
P(i) == Min2(Count(i), R + 1 - Count(i))
Compare == /\ out = <<>>
           /\ IF Variant = "early" THEN todo = {} ELSE \A k \in 1..R : Done(k)
           /\ out' = [support |-> Cut, stat |-> SubSeq(obs, 1, Cut),
                      p |-> [i \in 1..(IF Variant = "keepp" THEN M ELSE Cut) |-> P(i)],
                      sims |-> IF Variant = "axis" /\ Cut < M THEN [k \in 1..Min2(Cut, R) |-> sims[k]]
                               ELSE [k \in 1..R |-> SubSeq(sims[k], 1, Min2(Cut, Len(sims[k])))]]
           /\ UNCHANGED <<obs, curve, todo, run, sims>>
Next == \/ \E w \in Workers : Take(w) \/ Finish(w)
        \/ Compare
Spec == Init /\ [][Next]_vars
Consistent == out # <<>> => /\ Len(out.stat) = out.support /\ Len(out.p) = out.support
                            /\ Len(out.sims) = R /\ \A k \in 1..R : Len(out.sims[k]) = out.support
\* the p-values do not depend on who did what when
Determined == out # <<>> => \A i \in 1..out.support :
    LET c == Cardinality({k \in 1..R : curve[k][i] >= obs[i]}) + 1 IN out.p[i] = Min2(c, R + 1 - c)
=============================================================================

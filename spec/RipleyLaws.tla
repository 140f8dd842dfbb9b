----------------------------- MODULE RipleyLaws -----------------------------
(* Laws of the functions over all small patterns, and the rule by which the    *)
(* implementation computes an empirical distribution function (counts per      *)
(* support interval).  Variants are designs that TLC must refute: dividing by  *)
(* the number of distances that fall into the support ("norm"), forgetting the *)
(* distances below its start ("below"), pairs counted in one direction         *)
(* ("ordered").                                                                *)
EXTENDS Ripley, Json
CONSTANTS Side, N, Tops, Variant
VARIABLES p, sup
vars == <<p, sup>>
Lat == (0..Side) \X (0..Side)
Sups == {<<a, b, c>> \in (0..Tops) \X (0..Tops) \X (0..Tops) : a < b /\ b < c}
Init == /\ p \in UNION {[1..n -> Lat] : n \in 2..N}
        /\ \A i \in 1..(Len(p) - 1) : p[i] = p[i + 1] \/ Lex(p[i], p[i + 1])
        /\ sup \in Sups
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

ss == [i \in 1..3 |-> <<sup[i], 1>>]     \* squared support values
ds == NN2("euclidean", p)
n == Len(p)
Hist(i) == Cardinality({k \in 1..n : ds[k] >= sup[i] /\ (IF i = 2 THEN ds[k] <= sup[3] ELSE ds[k] < sup[i + 1])})
Below == IF Variant = "below" THEN 0 ELSE Cardinality({k \in 1..n : ds[k] < sup[1]})
Total == IF Variant = "norm" THEN Hist(1) + Hist(2) ELSE n
Rule(i) == Rat(Below + (IF i > 1 THEN Hist(1) ELSE 0) + (IF i > 2 THEN Hist(2) ELSE 0), Total)
EcdfRule == \A i \in 1..3 : Rule(i) \in EcdfVals(ds, ss, i)
\* any choice of allowed values is non-decreasing
Mono == \A i \in 1..2 : \A a \in EcdfVals(ds, ss, i), b \in EcdfVals(ds, ss, i + 1) : RLeq(a, b)
MonoK == \A i \in 1..2 : \A a \in PairVals(Pairs2("euclidean", p), ss, i), b \in PairVals(Pairs2("euclidean", p), ss, i + 1) : a <= b
\* K's definition over ordered pairs of distinct points
Ordered == \A i \in 1..3 :
    Cardinality({<<a, b>> \in (1..n) \X (1..n) : a # b /\ D2("euclidean", p[a], p[b]) < sup[i]})
      = (IF Variant = "ordered" THEN 1 ELSE 2) * LessThan(Pairs2("euclidean", p), ss[i])
\* the nearest-neighbour distances are among the pair distances; G reaches 1 no later than K its maximum
NNPairs == LET d == Pairs2("euclidean", p) IN {ds[i] : i \in 1..n} \subseteq {d[k] : k \in DOMAIN d}
Emit == (sup[1] + sup[2] + sup[3]) % 5 = Len(p) % 5 => PrintT("SCN " \o ToJson([p |-> p, s |-> sup]))
=============================================================================

------------------------------- MODULE T_KNN -------------------------------
(* Verdict on recorded neighbour queries.  ids are 0-based, as returned.     *)
EXTENDS Geo, Json, IOUtils
VARIABLES l, st

If(c, name) == IF c THEN {name} ELSE {}
Differ(a, b) == IF a = b THEN 0 ELSE 1
Canberra(a, b) == IF a = b THEN 0 ELSE (840 * Abs(a - b)) \div (a + b)   \* 0 <= a, b <= 4
Ring(a, b) == LET d == Abs(a - b) % 8 IN Min2(d, 8 - d)
D(m, p, q) == CASE m = "euclidean" -> Dist2(p, q)      \* squared
                [] m = "manhattan" -> Abs(p[1] - q[1]) + Abs(p[2] - q[2])
                [] m = "chebyshev" -> Max2(Abs(p[1] - q[1]), Abs(p[2] - q[2]))
                [] m = "hamming" -> Differ(p[1], q[1]) + Differ(p[2], q[2])       \* times 2
                [] m = "canberra" -> Canberra(p[1], q[1]) + Canberra(p[2], q[2])  \* times 840
                [] m = "ring" -> Ring(p[2], q[2])       \* steps of an eighth of the equator

Knn(e) ==
    LET n == Len(e.pts)
        Q == IF e.own THEN e.pts ELSE e.other
        row(i) == e.ids[i]
        ok == /\ Len(e.ids) = Len(Q) /\ Len(e.d) = Len(Q)
              /\ \A i \in 1..Len(Q) : /\ Len(e.ids[i]) = e.k /\ Len(e.d[i]) = e.k
                                      /\ \A a \in 1..e.k : e.ids[i][a] \in 0..(n - 1)
    IN  IF ~ok THEN {"shape"} ELSE
        If(e.own /\ \E i \in 1..n : \E a \in 1..e.k : e.ids[i][a] = i - 1, "never_itself")
        \cup If(\E i \in 1..Len(Q) : Cardinality({e.ids[i][a] : a \in 1..e.k}) # e.k, "distinct")
        \cup If(\E i \in 1..Len(Q) : \E a \in 1..e.k :
                  e.d[i][a] # D(e.metric, Q[i], e.pts[e.ids[i][a] + 1]), "true_distance")
        \cup If(\E i \in 1..Len(Q) : \E a \in 1..(e.k - 1) : e.d[i][a] > e.d[i][a + 1], "ordered")
        \cup If(\E i \in 1..Len(Q) :
                  LET far == D(e.metric, Q[i], e.pts[e.ids[i][e.k] + 1])
                      seen == {e.ids[i][a] + 1 : a \in 1..e.k}
                  IN  \E j \in (1..n) \ (seen \cup (IF e.own THEN {i} ELSE {})) :
                         D(e.metric, Q[i], e.pts[j]) < far, "none_closer")

\* rr = 4 r^2
Pairs(e) ==
    LET n == Len(e.pts)
        want == {<<i - 1, j - 1>> : <<i, j>> \in {x \in (1..n) \X (1..n) :
                     x[1] < x[2] /\ 4 * Dist2(e.pts[x[1]], e.pts[x[2]]) <= e.rr}}
        got == {<<Min2(p[1], p[2]), Max2(p[1], p[2])>> : p \in Range(e.pairs)}
    IN  If(got # want, "exactly_the_close_pairs") \cup If(Len(e.pairs) # Cardinality(got), "each_pair_once")

Bad(s, e) ==
    CASE e.op \in {"Fail", "Crash"} -> {"no_exception"}
      [] e.op = "Error" -> If(e.exc = "" \/ e.kind # e.want, "rejected_with_" \o e.want)
      [] e.exc # "" -> {"no_exception"}
      [] e.op = "Knn" -> Knn(e)
      [] e.op = "Pairs" -> Pairs(e)
      [] OTHER -> {"unknown_event"}
Post(s, e) == s
Trace == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH St0 <- 0
=============================================================================

----------------------------- MODULE SpaceTime -----------------------------
(* Space-time interaction of events.  An event set is a sequence s of lattice  *)
(* points and a sequence t of integer times of the same length; two events are *)
(* close in space when their distance is at most the threshold, close in time  *)
(* when their times differ by at most the threshold (both inclusive).          *)
(* dd is four times the squared distance threshold, tt twice the time          *)
(* threshold, so that half-integer thresholds are covered.                     *)
EXTENDS Geo

SClose(s, dd, i, j) == 4 * Dist2(s[i], s[j]) <= dd
TClose(t, tt, i, j) == 2 * Abs(t[i] - t[j]) <= tt
SAdj(s, dd) == LET n == Len(s) IN TLCEval([i \in 1..n |-> {j \in 1..n : j # i /\ SClose(s, dd, i, j)}])
TAdj(t, tt) == LET n == Len(t) IN TLCEval([i \in 1..n |-> {j \in 1..n : j # i /\ TClose(t, tt, i, j)}])
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Half(A) == SumOver(LAMBDA i : Cardinality(A[i]), Len(A)) \div 2
NPairs(n) == (n * (n - 1)) \div 2

\* adjacencies S (space) and T (time); event i gets the time of event f[i]
Local(S, T, i) == Cardinality(S[i] \cap T[i])
Nst(S, T) == SumOver(LAMBDA i : Local(S, T, i), Len(S)) \div 2
PermNst(S, T, f) == SumOver(LAMBDA i : Cardinality({j \in S[i] : f[j] \in T[f[i]]}), Len(S)) \div 2
\* conditional on event i (f fixes i)
PermLocal(S, T, f, i) == Cardinality({j \in S[i] : f[j] \in T[i]})

Observed(S, T) == LET n == Len(S)  a == Nst(S, T)  ns == Half(S)  nt == Half(T)
                  IN  <<<<a, ns - a>>, <<nt - a, NPairs(n) - (ns + nt) + a>>>>
\* the same table, counted pair by pair
Table(s, t, dd, tt) ==
    LET n == Len(s)
        P == {p \in (1..n) \X (1..n) : p[1] < p[2]}
        cnt(a, b) == Cardinality({p \in P : SClose(s, dd, p[1], p[2]) = a /\ TClose(t, tt, p[1], p[2]) = b})
    IN  <<<<cnt(TRUE, TRUE), cnt(TRUE, FALSE)>>, <<cnt(FALSE, TRUE), cnt(FALSE, FALSE)>>>>
Mean(S, T) == Rat(Half(S) * Half(T), NPairs(Len(S)))
\* variance of the statistic over all permutations: pairs of distinct close pairs
\* of S share an event or do not (Barton and David)
Adjacent(A) == SumOver(LAMBDA i : Cardinality(A[i]) * (Cardinality(A[i]) - 1), Len(A))
Falling(n, k) == IF k = 3 THEN n * (n - 1) * (n - 2) ELSE n * (n - 1) * (n - 2) * (n - 3)
Variance(S, T) ==
    LET n == Len(S)  ns == Half(S)  nt == Half(T)  m == Mean(S, T)
        share == IF n < 3 THEN RInt(0) ELSE Rat(Adjacent(S) * Adjacent(T), Falling(n, 3))
        apart == IF n < 4 THEN RInt(0) ELSE RMul(Rat(4 * ((ns * (ns - 1)) - Adjacent(S)), Falling(n, 4)), RInt((nt * (nt - 1)) - Adjacent(T)))
    IN  RSub(RAdd(m, RAdd(share, apart)), RMul(m, m))
Expected(S, T) == LET n == Len(S)  e == Mean(S, T)  ns == RInt(Half(S))  nt == RInt(Half(T))
                  IN  <<<<e, RSub(ns, e)>>, <<RSub(nt, e), RSub(RInt(NPairs(n)), RSub(RAdd(ns, nt), e))>>>>

\* upper tail of the hypergeometric distribution: at least a of the ns drawn from
\* n1 events are among the nt close in time; numerator over Binom(n1, ns)
HypNum(n1, nt, ns, a) == SumSeq([k \in 1..(Min2(ns, nt) + 1) |->
                             IF k - 1 < a THEN 0 ELSE Binom(nt, k - 1) * Binom(n1 - nt, ns - (k - 1))])
HypPmf(n1, nt, ns, a) == Binom(nt, a) * Binom(n1 - nt, ns - a)
\* over all events whose time the location may get
HypMean(S, T, i) ==
    LET n == Len(S)  ns == Cardinality(S[i])  a == Local(S, T, i)
    IN  Rat(SumOver(LAMBDA j : HypNum(n - 1, Cardinality(T[j]), ns, a), n), n * Binom(n - 1, ns))

\* Poisson upper tail P(X > a) with mean m (rational, at most 10), in 1/10000;
\* exact floor arithmetic: x * p / q without leaving 32 bits when the result fits
MulDiv(x, p, q) == ((x \div q) * p) + (((x % q) * p) \div q)
RECURSIVE PTerms(_, _, _, _, _)
PTerms(m, k, term, head, a) ==  \* <<sum of terms up to a, sum of all terms>>
    IF term = 0 /\ k > a /\ k > m[1] \div m[2] THEN <<head[1], head[2]>>
    ELSE PTerms(m, k + 1, MulDiv(term, m[1], m[2] * (k + 1)), <<IF k <= a THEN head[1] + term ELSE head[1], head[2] + term>>, a)
PoissonScale(m) == LET u == m[1] \div m[2] IN IF u < 1 THEN 100000000 ELSE IF u < 3 THEN 10000000 ELSE IF u < 6 THEN 1000000 ELSE 20000
PoissonTail(m, a) ==
    LET h == PTerms(m, 0, PoissonScale(m), <<0, 0>>, a)
        tail == h[2] - h[1]
    IN  tail \div (h[2] \div 10000)
PoissonOk(m) == m[1] < 10 * m[2]

\* labels of the connected components of an undirected link set over nodes V
RECURSIVE Reach(_, _)
Reach(E, R) == LET N == R \cup {e[2] : e \in {x \in E : x[1] \in R}} \cup {e[1] : e \in {x \in E : x[2] \in R}}
               IN  IF N = R THEN R ELSE Reach(E, N)
Orient(t, i, j) == IF t[i] < t[j] THEN "lead" ELSE IF t[i] > t[j] THEN "lag" ELSE "coincident"

\* hotspots: sig the significant events; listed events and the links that join them
SigLinks(A, sig) == {e \in UNION {{<<i, j>> : j \in A[i]} : i \in DOMAIN A} : e[1] \in sig \/ e[2] \in sig}
Hot(A, sig, keepn) == sig \cup (IF keepn THEN UNION {A[i] : i \in sig} ELSE {})
=============================================================================

------------------------------- MODULE T_ST -------------------------------
(* Verdict on recorded space-time interaction statistics.  Events have indices *)
(* from 1; recorded ids have already been mapped back to indices (0: unknown). *)
EXTENDS SpaceTime, Json, IOUtils
VARIABLES l, st
If(c, name) == IF c THEN {name} ELSE {}
Six(x) == 6 * ISqrt(x) + 6   \* about six standard deviations of variance x
SA(e) == SAdj(e.s, e.dd)
TA(e) == TAdj(e.t, e.tt)

RECURSIVE Digits(_, _, _, _)
Digits(v, r, d, k) == IF k = 0 THEN v ELSE Digits((v * 10) + ((r * 10) \div d), (r * 10) % d, d, k - 1)
Scale10(x, d, k) == Digits(x \div d, x % d, d, k)    \* x * 10^k / d

(* permutation p-values ------------------------------------------------------ *)
\* p: reported, sims: kept simulated statistics
PRule(p, sims, obs) == REq(p, Rat(1 + CountIf(LAMBDA k : sims[k] >= obs, Len(sims)), Len(sims) + 1))
PAttain(p, perms) == IsNum(p) /\ (perms + 1) % p[2] = 0 /\ p[1] * ((perms + 1) \div p[2]) \in 1..(perms + 1)
PCount(p, perms) == p[1] * ((perms + 1) \div p[2]) - 1
\* lo/N .. hi/N: the probability of a statistic at least as large
\* about six standard deviations of the number of successes of probability g/N; none when certain
SixB(perms, g, N) == IF g = 0 \/ g = N THEN 0
                     ELSE LET a == MulDiv(perms, g, N) IN 6 * ISqrt(MulDiv(a, N - g, N) + 1) + 6
PFreq(p, perms, lo, hi, N) ==
    LET c == PCount(p, perms)
        a == MulDiv(perms, lo, N)
        b == MulDiv(perms, hi, N)
    IN  c < a - SixB(perms, lo, N) \/ c > b + 1 + SixB(perms, hi, N)

(* global Knox ----------------------------------------------------------------- *)
Glob(e) ==
    LET S == TLCEval(SA(e))  T == TLCEval(TA(e))  n == Len(e.s)
        nst == TLCEval(Nst(S, T))
        m == Mean(S, T)
        small == n <= 5
        all == TLCEval(IF small THEN [h \in Perms(n) |-> PermNst(S, T, h)] ELSE <<>>)
        N == Fact(Min2(n, 5))
        ge == Cardinality({h \in DOMAIN all : all[h] >= nst})
    IN  If(e.nst # nst \/ e.stat # nst, "statistic_counts_close_pairs")
        \cup If(e.obs # Table(e.s, e.t, e.dd, e.tt), "observed_table")
        \cup If(e.exp # Expected(S, T), "expected_table")
        \cup If(PoissonOk(m) /\ Abs(e.pp - PoissonTail(m, nst)) > 20, "poisson_tail")
        \cup If(e.haspsim # (e.perms > 0) \/ e.hassim # (e.perms > 0 /\ e.keep), "inference_as_requested")
        \cup If(e.haspsim /\ ~PAttain(e.psim, e.perms), "pseudo_p_value")
        \cup If(e.hassim /\ (Len(e.sim) # e.perms \/ ~PRule(e.psim, e.sim, nst)), "pseudo_p_value")
        \cup If(e.hassim /\ (IF small THEN \E k \in 1..Len(e.sim) : \A h \in DOMAIN all : all[h] # e.sim[k]
                             ELSE \E k \in 1..Len(e.sim) : e.sim[k] < Max2(0, Half(S) + Half(T) - NPairs(n)) \/ e.sim[k] > Min2(Half(S), Half(T))),
                "simulated_statistics_attainable")
        \cup If(e.haspsim /\ small /\ (e.perms >= 100 \/ ge = N) /\ PAttain(e.psim, e.perms) /\ PFreq(e.psim, e.perms, ge, ge, N), "permutations_uniform")
        \cup If(e.hassim /\ small /\ e.perms >= 100 /\ \E v \in 0..NPairs(n) :
                    LET w == (e.perms * Cardinality({h \in DOMAIN all : all[h] = v})) \div N
                    IN  Abs(Cardinality({k \in 1..Len(e.sim) : e.sim[k] = v}) - w) > SixB(e.perms, Cardinality({h \in DOMAIN all : all[h] = v}), N), "permutations_uniform")
        \cup If(e.hassim /\ ~small /\ e.perms >= 100 /\ LET v == Variance(S, T)
                  IN  Abs((SumSeq(e.sim) * m[2]) - (e.perms * m[1])) > m[2] * Six(MulDiv(e.perms, v[1], v[2])), "permutations_uniform")
        \cup If(~e.same, "arguments_unchanged")

(* local Knox ------------------------------------------------------------------- *)
Loc(e) ==
    LET S == TLCEval(SA(e))  T == TLCEval(TA(e))  n == Len(e.s)  n1 == n - 1
        ns(i) == Cardinality(S[i])
        nt(i) == Cardinality(T[i])
        lo(i) == Max2(0, ns(i) + nt(i) - n1)
        hi(i) == Min2(ns(i), nt(i))
        ok == Len(e.nsti) = n /\ Len(e.hyp) = n
        links == {<<i, j>> \in (1..n) \X (1..n) : j \in S[i] \cap T[i]}
    IN  IF ~ok THEN {"one_value_per_event"} ELSE
        If(\E i \in 1..n : e.nsti[i] # Local(S, T, i), "local_statistic")
        \cup If(SumSeq(e.nsti) # 2 * e.nst, "local_statistics_add_up")
        \cup If(\E i \in 1..n : IF e.big THEN LET q == HypMean(S, T, i) IN Abs(e.hyp[i] - Scale10(q[1], q[2], 5)) > 1
                              ELSE ~REq(e.hyp[i], HypMean(S, T, i)), "hypergeometric_p_value")
        \cup If(e.haspsims # (e.perms > 0) \/ e.hassims # (e.perms > 0 /\ e.keep), "inference_as_requested")
        \cup (IF ~e.haspsims THEN {} ELSE
              If(Len(e.psims) # n \/ \E i \in 1..n : ~PAttain(e.psims[i], e.perms), "pseudo_p_value"))
        \cup (IF ~e.hassims THEN {} ELSE
              IF Len(e.sims) # n \/ Len(e.psims) # n \/ \E i \in 1..n : Len(e.sims[i]) # e.perms THEN {"one_value_per_event"} ELSE
              If(\E i \in 1..n : ~PRule(e.psims[i], e.sims[i], Local(S, T, i)), "pseudo_p_value")
              \cup If(\E i \in 1..n : \E k \in 1..e.perms : e.sims[i][k] \notin lo(i)..hi(i), "simulated_values_attainable")
              \cup If(e.perms >= 100 /\ \E i \in 1..n : \E v \in lo(i)..hi(i) :
                        LET w == MulDiv(e.perms, HypPmf(n1, nt(i), ns(i), v), Binom(n1, ns(i)))
                        IN  Abs(Cardinality({k \in 1..e.perms : e.sims[i][k] = v}) - w) > SixB(e.perms, HypPmf(n1, nt(i), ns(i), v), Binom(n1, ns(i))), "time_neighbours_drawn_uniformly"))
        \cup (IF ~(e.haspsims /\ e.perms >= 100 /\ Len(e.psims) = n /\ \A i \in 1..n : PAttain(e.psims[i], e.perms)) THEN {} ELSE
              If(\E i \in 1..n : LET w == HypNum(n1, nt(i), ns(i), Local(S, T, i))
                                 IN  PFreq(e.psims[i], e.perms, w, w, Binom(n1, ns(i))), "time_neighbours_drawn_uniformly"))
        \cup If({<<a[1], a[2]>> : a \in Range(e.adj)} # links \/ Len(e.adj) # Cardinality(links), "adjacency_is_the_close_pairs")
        \cup If(\E a \in Range(e.adj) : a[1] > 0 /\ a[2] > 0 /\ a[3] # Orient(e.t, a[1], a[2]), "orientation")
        \cup If(~e.same, "arguments_unchanged")

(* hotspots ------------------------------------------------------------------------ *)
\* A: space-time neighbours; rows <<focal, neighbor (0 none), orientation, p, time, cluster, x, y>>
AdjST(e) == LET S == SA(e)  T == TA(e) IN TLCEval([i \in 1..Len(S) |-> S[i] \cap T[i]])
Sig(e) == {i \in 1..Len(e.s) : RLeq(e.p[i], e.crit)}
Rows(e) ==
    LET A == AdjST(e)  sig == Sig(e)  L == TLCEval(SigLinks(A, sig))
        R == e.rows
        ok == \A k \in 1..Len(R) : R[k][1] \in 1..Len(e.s) /\ R[k][2] \in 0..Len(e.s)
    IN  IF ~ok THEN {"known_events"} ELSE
        If({R[k][1] : k \in 1..Len(R)} # Hot(A, sig, e.keepn) \/ Cardinality({R[k][1] : k \in 1..Len(R)}) # Len(R), "exactly_the_significant_events")
        \cup If(\E k \in 1..Len(R) : IF R[k][2] = 0 THEN A[R[k][1]] # {} ELSE <<R[k][1], R[k][2]>> \notin L, "listed_links_are_neighbours")
        \cup If(\E k \in 1..Len(R) : R[k][2] # 0 /\ R[k][3] # Orient(e.t, R[k][1], R[k][2]), "orientation")
        \cup If(\E k \in 1..Len(R) : R[k][4] # e.p[R[k][1]] \/ R[k][5] # e.t[R[k][1]] \/ <<R[k][7], R[k][8]>> # e.s[R[k][1]], "values_of_the_event")
        \cup If(\E a, b \in 1..Len(R) : a < b /\ ((R[a][6] = R[b][6]) # (R[b][1] \in Reach(L, {R[a][1]}))), "cluster_labels")
        \cup If(e.warned # e.fallback, "falls_back_with_a_warning")
\* drawn points <<x, y, colour>> and line ends <<x, y, x, y>>
Tint(e, i) == IF i \in Sig(e) THEN e.colors[1] ELSE IF i \in Hot(AdjST(e), Sig(e), TRUE) THEN e.colors[2] ELSE e.colors[3]
Bag(q) == [v \in Range(q) |-> Cardinality({k \in 1..Len(q) : q[k] = v})]
Drawn(e) ==
    LET A == AdjST(e)  L == TLCEval(SigLinks(A, Sig(e)))
        want == [i \in 1..Len(e.s) |-> <<e.s[i][1], e.s[i][2], Tint(e, i)>>]
        ends == {<<e.s[p[1]], e.s[p[2]]>> : p \in L} \cup {<<e.s[p[2]], e.s[p[1]]>> : p \in L}
        seg(q) == <<<<q[1], q[2]>>, <<q[3], q[4]>>>>
    IN  If(Bag(e.pts) # Bag(want), "colours_precisely_the_events")
        \cup If(\E q \in Range(e.lines) : seg(q) \notin ends, "edges_join_neighbours")
        \cup If(e.edges /\ \E i \in Hot(A, Sig(e), TRUE) : A[i] # {} /\ ~\E q \in Range(e.lines) : e.s[i] \in {seg(q)[1], seg(q)[2]}, "edges_join_neighbours")
        \cup If(~e.edges /\ e.lines # <<>>, "edges_as_requested")
        \cup If(~e.onax, "drawn_on_the_given_axes")
        \cup If(e.warned # e.fallback, "falls_back_with_a_warning")

(* classic tests ---------------------------------------------------------------------- *)
\* statistic of a relabelling f of the times
ModKnox(S, T, f) == LET n == Len(S)
                        e == SumOver(LAMBDA i : Cardinality(S[i]) * Cardinality(T[f[i]]), n)
                    IN  Rat((2 * PermNst(S, T, f) * (n - 1)) - e, 2 * (n - 1))
\* observed modified Knox statistic pairs every event with its own times
Nearest(d(_, _), n, k) == [i \in 1..n |-> {j \in (1..n) \ {i} : Cardinality({m \in (1..n) \ {i} : d(i, m) < d(i, j)}) < k}]
Jacq(KS, KT, f) == SumOver(LAMBDA i : Cardinality({j \in KS[i] : f[j] \in KT[f[i]]}), Len(KS))
Id(n) == [i \in 1..n |-> i]
\* integer multiples of the transformed distances (the correlation does not change)
PowI(x, p) == CASE p = 1 -> x [] p = 2 -> x * x [] p = -1 -> 60 \div x [] p = -2 -> (12 \div x) * (12 \div x) [] p = 0 -> 1
PairsOf(n) == TLCEval([k \in 1..NPairs(n) |-> CHOOSE p \in (1..n) \X (1..n) : p[1] > p[2] /\ ((p[1] - 1) * (p[1] - 2)) \div 2 + p[2] = k])
\* space is on a line with unit steps (so that distances are integers): e.s[i][1], or a multiple of it
Cov(u, v) == LET m == Len(u) IN (m * SumSeq([k \in 1..m |-> u[k] * v[k]])) - (SumSeq(u) * SumSeq(v))
RECURSIVE Root(_, _)
Root(x, k) == IF x < 20000000 THEN Root(x * 100, k + 1) ELSE <<ISqrt(x), k>>  \* sqrt(x) = result[1] / 10^result[2]
Corr(c, a, b) == \* 10000 * c / sqrt(a b)
    IF c = 0 THEN 0 ELSE
    LET ra == Root(a, 0)  rb == Root(b, 0)
        x == Scale10(Scale10(Abs(c), ra[1], ra[2] + 4), rb[1], rb[2])
    IN  IF c < 0 THEN -x ELSE x
SVec(e, P) == [k \in 1..Len(P) |-> PowI(Abs(e.s[P[k][1]][1] - e.s[P[k][2]][1]) + e.scon, e.spow)]
TVec(e, P, f) == [k \in 1..Len(P) |-> PowI(Abs(e.t[f[P[k][1]]] - e.t[f[P[k][2]]]) + e.tcon, e.tpow)]
Classic(e) ==
    LET n == Len(e.s)
        S == TLCEval(SA(e))  T == TLCEval(TA(e))
        PP == TLCEval(IF n <= 5 /\ e.perms > 0 THEN Perms(n) ELSE {Id(n)})
        N == Cardinality(PP)
        P == PairsOf(n)
        KS == TLCEval(IF e.test = "jacquez" THEN Nearest(LAMBDA i, j : Dist2(e.s[i], e.s[j]), n, e.k) ELSE <<>>)
        KT == TLCEval(IF e.test = "jacquez" THEN Nearest(LAMBDA i, j : Abs(e.t[i] - e.t[j]), n, e.k) ELSE <<>>)
        sv == TLCEval(IF e.test = "mantel" THEN SVec(e, P) ELSE <<>>)
        \* mantel: all permutations have the same variances, so covariances decide
        val(f) == CASE e.test = "knox" -> <<PermNst(S, T, f), 1>>
                    [] e.test = "modified_knox" -> ModKnox(S, T, f)
                    [] e.test = "jacquez" -> <<Jacq(KS, KT, f), 1>>
                    [] e.test = "mantel" -> <<Cov(sv, TVec(e, P, f)), 1>>
        obs == TLCEval(val(Id(n)))
        all == TLCEval([f \in PP |-> val(f)])
        ge == Cardinality({f \in PP : RLeq(obs, all[f])})
        tail == IF e.test # "knox" THEN PFreq(e.p, e.perms, ge, ge, N)
                ELSE LET c == PCount(e.p, e.perms)  a == (e.perms * Min2(ge, N - ge)) \div N IN Abs(c - a) > SixB(e.perms, ge, N) + 1
        one == e.test = "knox" /\ 2 * PCount(e.p, e.perms) > e.perms
    IN  (IF e.test = "mantel"
         THEN If(Abs(e.fx - Corr(obs[1], Cov(sv, sv), LET tv == TVec(e, P, Id(n)) IN Cov(tv, tv))) > 12, "statistic_of_its_definition")
         ELSE If(~REq(e.stat, obs), "statistic_of_its_definition"))
        \cup If(e.hasp # (e.perms > 0), "inference_as_requested")
        \cup (IF ~e.hasp THEN {} ELSE
              IF ~PAttain(e.p, e.perms) THEN {"pseudo_p_value"} ELSE
              If(one, "smaller_tail") \cup If(n <= 5 /\ (e.perms >= 100 \/ (ge = N /\ e.test # "knox")) /\ tail, "p_value_of_the_relabellings"))
        \cup If(~e.same, "arguments_unchanged")

(* loading --------------------------------------------------------------------------- *)
Load(e) ==
    LET n == Len(e.recs) IN
    If(e.n # n \/ e.shapes # <<<<n, 1>>, <<n, 1>>, <<n, 1>>, <<n, 2>>, <<n, 2>>>>, "every_record")
    \cup If(e.x # [i \in 1..n |-> e.recs[i][1]] \/ e.y # [i \in 1..n |-> e.recs[i][2]] \/ e.space # [i \in 1..n |-> <<e.recs[i][1], e.recs[i][2]>>], "coordinates_in_order")
    \cup (LET base == MinSet({e.recs[i][3] : i \in 1..n})
              want == [i \in 1..n |-> IF e.days THEN e.recs[i][3] - base ELSE e.recs[i][3]]
          IN  If(e.tt # want \/ e.time # [i \in 1..n |-> <<want[i], 1>>], "times_in_order"))

Bad(s, e) ==
    CASE e.op \in {"Fail", "Crash"} -> {"no_exception"}
      [] e.op = "Error" -> If(e.kind = "", "rejected") \cup If(e.kind # "" /\ e.want # "" /\ e.kind # e.want, "rejected_with_" \o e.want)
      [] e.exc # "" -> {"no_exception"}
      [] e.op = "Glob" -> Glob(e)
      [] e.op = "Loc" -> Loc(e)
      [] e.op = "Rows" -> Rows(e)
      [] e.op = "Drawn" -> Drawn(e)
      [] e.op = "Classic" -> Classic(e)
      [] e.op = "Load" -> Load(e)
      [] e.op = "Equal" -> If(e.a # e.b, e.what)
      [] OTHER -> {"unknown_event"}
Post(s, e) == s
Trace == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH St0 <- 0
=============================================================================

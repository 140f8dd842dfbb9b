------------------------------- MODULE T_RIP -------------------------------
(* Verdict on recorded values of the distance functions and their tests.      *)
EXTENDS Ripley, Json, IOUtils
VARIABLES l, st
If(c, name) == IF c THEN {name} ELSE {}

(* the distances an event is about, squared -------------------------------- *)
\* 2-d matrices of squared distances: G takes the row minimum off the diagonal,
\* F the minimum over the pattern (rows)
RowMin(M) == [i \in 1..Len(M) |-> MinSet({M[i][j] : j \in (1..Len(M)) \ {i}})]
ColMin(M) == [j \in 1..Len(M[1]) |-> MinSet({M[i][j] : i \in 1..Len(M)})]
Dists(fn, form, d, metric, pts) ==
    CASE form = "none" -> NN2(metric, pts)
      [] form = "vec" -> d
      [] form = "mat" -> IF fn = "g" THEN RowMin(d) ELSE ColMin(d)

Amb(e, i) == i < Len(e.s2) \/ ~e.exact
CdfSet(e, ds, i) == {Rat(c, Cardinality(DOMAIN ds)) :
                        c \in (IF Amb(e, i) THEN LessThan(ds, e.s2[i]) ELSE AtMost(ds, e.s2[i]))..AtMost(ds, e.s2[i])}
SupOK(e) == e.s2 = SupportSq(e.sup, e.metric, e.pts)

Cdf(e) ==
    LET ds == TLCEval(Dists(e.fn, e.form, e.d, e.metric, e.pts))
    IN  If(~SupOK(e), "support")
        \cup If(Len(e.v) # Len(e.s2) \/ \E i \in 1..Min2(Len(e.v), Len(e.s2)) : e.v[i] \notin CdfSet(e, ds, i), "distribution_function_of_the_distances")
        \cup If(\E i \in 1..(Len(e.v) - 1) : ~(IsNum(e.v[i]) /\ IsNum(e.v[i + 1]) /\ RLeq(e.v[i], e.v[i + 1])), "non_decreasing")
        \cup If(\E i \in 1..Len(e.v) : ~(IsNum(e.v[i]) /\ RLeq(<<0, 1>>, e.v[i]) /\ RLeq(e.v[i], <<1, 1>>)), "between_0_and_1")

\* centres of the cells (r per lattice unit) in a convex ring, coordinates times 2r
Cells(ring, r) ==
    LET b == BBox(Range(ring))
        rr == [i \in 1..Len(ring) |-> <<2 * r * ring[i][1], 2 * r * ring[i][2]>>]
    IN  TLCEval({c \in {<<2 * x + 1, 2 * y + 1>> : x \in (r * b[1])..(r * b[3] - 1), y \in (r * b[2])..(r * b[4] - 1)} : InConvex(c, rr)})
\* cells per unit that give some hundreds of cells
Res(ring) == LET a == Area2(ring) \div 2 IN IF a >= 200 THEN 1 ELSE IF a >= 60 THEN 2 ELSE IF a >= 25 THEN 4 ELSE 8
HullRing(e) == IF e.ring # <<>> THEN e.ring
               ELSE IF e.hull = "convex" THEN Hull(Range(e.pts))
               ELSE LET b == BBox(Range(e.pts)) IN <<<<b[1], b[2]>>, <<b[3], b[2]>>, <<b[3], b[4]>>, <<b[1], b[4]>>>>
Slack == 130
Empty(e) ==
    LET r == Res(HullRing(e))
        cells == Cells(HullRing(e), r)
    IN  If(~SupOK(e), "support")
        \cup If(Len(e.v) # Len(e.s2) \/ \E i \in 1..Len(e.v) : Abs(e.v[i] - EmptyFrac(e.metric, e.pts, cells, e.s2[i], r)) > Slack, "empty_space_of_the_hull")
        \cup If(\E i \in 1..(Len(e.v) - 1) : e.v[i] > e.v[i + 1], "non_decreasing")
\* J with its own empty space: J (1 - F) is about 1 - G
JEmpty(e) ==
    LET r == Res(HullRing(e))
        cells == Cells(HullRing(e), r)
        ds == NN2(e.metric, e.pts)
    IN  If(\E i \in 1..Len(e.v) : LET f == 1000 - EmptyFrac(e.metric, e.pts, cells, e.s2[i], r)
                                       lo == 1000 - (1000 * AtMost(ds, e.s2[i])) \div Len(e.pts)
                                       hi == 1000 - (1000 * LessThan(ds, e.s2[i])) \div Len(e.pts)
                                       x == (e.v[i] * f) \div 1000
                                       sl == (Slack * e.v[i]) \div 1000 + 5
                                   IN  ~(x >= lo - sl /\ x <= hi + sl), "ratio_of_G_and_F")

Area(p) == LET b == BBox(Range(p)) IN (b[3] - b[1]) * (b[4] - b[2])
KSet(e, ds, i) == {KVal(RInt(Area(e.pts)), c, Len(e.pts)) :
                      c \in LessThan(ds, e.s2[i])..(IF Amb(e, i) THEN AtMost(ds, e.s2[i]) ELSE LessThan(ds, e.s2[i]))}
PairDs(e) == CASE e.form = "none" -> Pairs2(e.metric, e.pts)
               [] e.form = "vec" -> e.d
               [] e.form = "mat" -> [k \in {<<i, j>> \in (1..Len(e.d)) \X (1..Len(e.d)) : i < j} |-> e.d[k[1]][k[2]]]
KL(e) == \* for L, v holds pi L^2 (of L + d when linearised)
    LET ds == TLCEval(PairDs(e))
    IN  If(~SupOK(e), "support")
        \cup If(Len(e.v) # Len(e.s2) \/ \E i \in 1..Min2(Len(e.v), Len(e.s2)) : e.v[i] \notin KSet(e, ds, i),
                IF e.fn = "k" THEN "pairs_closer_than_d" ELSE "root_of_K_over_pi")

JSet(e, gd, fd, i) == {JVal(a, b) : a \in CdfSet(e, gd, i), b \in CdfSet(e, fd, i)}
J(e) ==
    LET gd == Dists("g", e.gform, e.gd, e.metric, e.pts)
        fd == Dists("f", e.fform, e.fd, e.metric, e.pts)
        all == SupportSq(e.sup, e.metric, e.pts)
        m == Len(e.v)
        x == [e EXCEPT !.s2 = all]
    IN  If(Len(e.s2) # m \/ m > Len(all) \/ e.s2 # SubSeq(all, 1, m), "support")
        \cup If(m <= Len(all) /\ \E i \in 1..m : e.v[i] \notin JSet(x, gd, fd, i), "ratio_of_G_and_F")
        \cup If(IF e.truncate THEN \/ \E i \in 1..m : ~IsNum(e.v[i])
                                   \/ (m < Len(all) /\ \A q \in JSet(x, gd, fd, m + 1) : IsNum(q))
                ELSE m # Len(all), "cut_where_undefined")

(* tests ------------------------------------------------------------------------
   rank encoding: at each support value the ranks of the observed and of the
   simulated values among themselves (undefined simulated values are -1, an
   undefined observed value is larger than all)                                 *)
PVal(obs, sims, R) == LET c == Cardinality({k \in 1..Len(sims) : sims[k] >= obs}) + 1
                      IN  Rat(Min2(c, R + 1 - c), R + 1)
Test(e) ==
    If(Len(e.obs) # e.m, "same_length")
    \cup If(e.R > 0 /\ (Len(e.p) # Len(e.obs) \/ \E i \in 1..Min2(Len(e.obs), Len(e.p)) : e.p[i] # PVal(e.obs[i], e.sims[i], e.R)), "pseudo_p_value")
    \cup If(e.R = 0 /\ (Len(e.p) # Len(e.obs) \/ \E i \in 1..Len(e.p) : e.p[i] # <<0, 0>>), "no_p_value_without_simulations")
    \cup If(e.kept # <<e.R, e.m>>, "one_curve_per_replication")
\* simulated curves are curves of the statistic, with its options, for as many points as observed:
\* G steps by 1/n; K and pi L^2, relative to their last value, are ratios of numbers of pairs
Curves(e) ==
    LET n == Len(e.pts)
        P == (n * (n - 1)) \div 2
        okv(x) == /\ IsNum(x) /\ RLeq(<<0, 1>>, x) /\ RLeq(x, <<1, 1>>)
                  /\ CASE e.fn = "g" -> n % x[2] = 0
                       [] e.fn = "f" -> TRUE
                       [] OTHER -> x[2] <= P
    IN  If(\E k \in 1..Len(e.c) : \E i \in 1..Len(e.c[k]) : ~okv(e.c[k][i]), "curves_of_the_statistic")
        \cup If(\E k \in 1..Len(e.c) : \E i \in 1..(Len(e.c[k]) - 1) :
                 IsNum(e.c[k][i]) /\ IsNum(e.c[k][i + 1]) /\ ~RLeq(e.c[k][i], e.c[k][i + 1]), "non_decreasing")
\* same support and statistic as the function
Agree(e) == If(e.s1 # e.s2, "support_of_the_function") \cup If(e.v1 # e.v2, "statistic_of_the_function")
\* points of a simulated pattern, 500 per lattice unit, against a convex ring
Pattern(e) ==
    LET ring == LET r == HullRing(e) IN [i \in 1..Len(r) |-> <<500 * r[i][1], 500 * r[i][2]>>]
    IN  If(e.n # e.R * Len(e.pts), "as_many_points_as_observed")
        \cup If(\E k \in 1..Len(e.x) : \E i \in 1..Len(ring) : Cross(ring[i], ring[Nxt(ring, i)], e.x[k]) < -40000, "within_the_hull")
\* mean simulated G or F curve (permille) under n uniform points in the hull
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 10000 ELSE (x * Pow(x, k - 1)) \div 10000
Mean(e) ==
    LET r == Res(HullRing(e))
        cells == Cells(HullRing(e), r)
        C == Cardinality(cells)
        s == e.s2
        k == IF e.fn = "g" THEN Len(e.pts) - 1 ELSE Len(e.pts)
        miss(c) == Pow(10000 - (10000 * Cardinality({c2 \in cells : D2("euclidean", c, c2) * s[2] <= 4 * r * r * s[1]})) \div C, k)
        tot == FoldSet(LAMBDA c, a : a + miss(c), 0, cells)
    IN  If(Abs(e.v - (1000 - (tot \div C) \div 10)) > e.slack, "simulated_in_the_hull")

Bad(s, e) ==
    CASE e.op \in {"Fail", "Crash"} -> {"no_exception"}
      [] e.op = "Error" -> If(e.kind # e.want, "rejected_with_" \o e.want)
      [] e.exc # "" -> {"no_exception"}
      [] e.op = "Cdf" -> Cdf(e)
      [] e.op = "Empty" -> Empty(e)
      [] e.op = "JEmpty" -> JEmpty(e)
      [] e.op = "KL" -> KL(e)
      [] e.op = "J" -> J(e)
      [] e.op = "Test" -> Test(e)
      [] e.op = "Curves" -> Curves(e)
      [] e.op = "Agree" -> Agree(e)
      [] e.op = "Pattern" -> Pattern(e)
      [] e.op = "Mean" -> Mean(e)
      [] e.op = "Equal" -> If(e.a # e.b, e.what)
      [] OTHER -> {"unknown_event"}
Post(s, e) == s
Trace == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH St0 <- 0
=============================================================================

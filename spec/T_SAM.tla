------------------------------- MODULE T_SAM -------------------------------
(* Verdict on recorded samples of the random point generators.                *)
(* Recorded coordinates are in units of 1/Q of a lattice unit.                *)
EXTENDS Samplers, Json, IOUtils
VARIABLES l, st
If(c, name) == IF c THEN {name} ELSE {}
Q == 500
Six(x) == 6 * ISqrt(x) + 6   \* about six standard deviations of variance x

Fine(h) == ScaleReg(HullReg(h), Q)
Outside(pts, h) == LET R == Fine(h) IN \E k \in 1..Len(pts) : ~NearReg(pts[k], R)

(* shape: e.got is the shape of the returned array, e.x all its points *)
Shape(e) ==
    LET nr == Parse(e.size, e.inten, RegArea2(HullReg(e.hull)))
        ok == nr # <<>> /\ e.got = ShapeOf(nr)
    IN  If(nr = <<>>, "request_rejected")
        \cup If(nr # <<>> /\ ~ok, "documented_shape")
        \cup If(Outside(e.x, e.hull), "within_the_hull")
        \cup If(e.distinct # Len(e.x), "independent_points")
(* what a request comes to: points, replications, intensity *)
Parsed(e) ==
    LET a2 == RegArea2(HullReg(e.hull))
        nr == Parse(e.size, e.inten, a2)
    IN  If(<<e.n, e.r>> # nr, "documented_shape")
        \cup If(~REq(e.got, IF e.inten # <<>> THEN e.inten ELSE Rat(2 * nr[1], a2)), "intensity_of_the_request")
Reject(e) == If(Parse(e.size, e.inten, RegArea2(HullReg(e.hull))) # <<>>, "machinery")
             \cup If(e.kind # "ValueError", "request_rejected")

(* uniformity over the 3 x 3 blocks of the bounding box; its sides are multiples of 3 *)
\* a cluster process in a square: whatever the number of clusters, the share of a half of the
\* square in a realization has mean 1/2 and variance at most 1/4
Halves(e) == If(\E k \in 1..Len(e.c) : Abs((2 * e.c[k]) - (e.n * e.samples)) > 6 * e.n * (ISqrt(e.samples) + 1), "spread_over_the_window")
Uniform(e) ==
    LET R == HullReg(e.hull)
        b == RegBBox(R)
        r == 4
        S == ScaleReg(R, 2 * r)
        w == (b[3] - b[1]) \div 3
        h == (b[4] - b[2]) \div 3
        blk(i, j) == Cardinality({c \in ((r * (b[1] + (i * w)))..(r * (b[1] + ((i + 1) * w)) - 1))
                                    \X ((r * (b[2] + (j * h)))..(r * (b[2] + ((j + 1) * h)) - 1)) :
                                    InReg(<<2 * c[1] + 1, 2 * c[2] + 1>>, S)})
        a == TLCEval([i \in 0..2, j \in 0..2 |-> blk(i, j)])
        tot == SumOver(LAMBDA k : a[(k - 1) % 3, (k - 1) \div 3], 9)
        \* expected counts have an error of the order of the boundary cells
        exp(i, j) == (e.n * a[i, j]) \div tot
    IN  If(SumSeq([k \in 1..9 |-> e.c[k]]) # e.n, "within_the_hull")
        \cup If(\E i \in 0..2, j \in 0..2 : Abs(e.c[(3 * j) + i + 1] - exp(i, j)) > Six(exp(i, j)) + ((2 * e.n) \div 100), "uniform_over_the_hull")

(* moments; e.m mean, e.v = <<var x, cov, var y>>, fixed point with 1000 (mean)
   and 100 (covariance) per unit, sample size e.n; wanted centre e.c (rational)
   (<<>>: the centroid of e.k times the hull) and covariance e.s = <<a, b, c>> in hundredths                              *)
Fix(r, k) == (k * r[1]) \div r[2]
Centre(e) == IF e.c # <<>> THEN e.c
             ELSE LET c == RegCentroid(HullReg(e.hull)) IN [i \in 1..2 |-> RMul(<<e.k, 1>>, c[i])]
Moments(e) ==
    LET a == e.s[1]  b == e.s[2]  c == e.s[3]
        dm(v) == (6 * 100 * ISqrt((100 * v) \div e.n)) + 20       \* 1000 * 6 * sqrt(v / 100 / n)
        dv(v) == (v * 6 * ISqrt((2 * 1000000) \div e.n)) \div 1000 + 2
        dc == (6 * ISqrt(((a * c) + (b * b)) \div e.n)) + 2
        mean == \E i \in 1..2 : Abs(e.m[i] - Fix(Centre(e)[i], 1000)) > dm(IF i = 1 THEN a ELSE c)
    IN  If(mean, "centre")
        \cup If(Abs(e.v[1] - a) > dv(a) \/ Abs(e.v[3] - c) > dv(c) \/ Abs(e.v[2] - b) > dc, "covariance")
\* default spread in a box: standard deviation half the larger side, cut by the
\* box at one standard deviation (permille of the variance) and, across, at 1/k
CutVar == <<291, 81, 37>>
Default(e) ==
    LET s2 == (100 * e.w * e.w) \div 4      \* e.w the larger side (100 per unit squared)
        vx == (s2 * CutVar[1]) \div 1000
        vy == (s2 * CutVar[e.k]) \div 1000
        dv(v) == (v * 6 * ISqrt(1000000 \div e.n)) \div 1000 + 2
        dm(v) == (6 * 100 * ISqrt((100 * v) \div e.n)) + 20
    IN  If(Abs(e.m[1] - Fix(e.c[1], 1000)) > dm(vx) \/ Abs(e.m[2] - Fix(e.c[2], 1000)) > dm(vy), "default_centre")
        \cup If(Abs(e.v[1] - vx) > dv(vx) \/ Abs(e.v[3] - vy) > dv(vy), "default_covariance")

(* clusters ------------------------------------------------------------------- *)
\* e.x: one replication; e.k seeds; e.r2: squared radius of each group in units of
\* 1/Q^2, or <<>> for the default radius; groups are consecutive, the seed first
Grp(e, i) == SubSeq(e.x, GroupStart(Len(e.x), e.k, i) + 1, GroupStart(Len(e.x), e.k, i) + SplitSizes(Len(e.x), e.k)[i])
SeedsOf(e) == [i \in 1..e.k |-> Grp(e, i)[1]]
\* distances are compared in steps of 10 so that squares stay small
C10(p) == <<p[1] \div 10, p[2] \div 10>>
D10(p, q) == LET a == (p[1] - q[1]) \div 10
                 b == (p[2] - q[2]) \div 10
             IN  IF Abs(a) > 20000 \/ Abs(b) > 20000 THEN 800000000 ELSE (a * a) + (b * b)
MinSeedD(e) == MinSet({D10(SeedsOf(e)[i], SeedsOf(e)[j]) : <<i, j>> \in {x \in (1..e.k) \X (1..e.k) : x[1] < x[2]}})
Radius10(e, i) == IF e.r = <<>> THEN ISqrt(MinSeedD(e)) \div 2 + 2 ELSE (e.r[i] \div 10) + 1
CPoisson(e) ==
    If(Outside(e.x, e.hull), "within_the_hull")
    \cup If(\E i \in 1..e.k : LET g == Grp(e, i)
                                  r == Radius10(e, i) + 2
                              IN  \E j \in 2..Len(g) : D10(g[1], g[j]) > r * r, "group_within_its_circle")
    \* many offspring of an uncut circle reach beyond 0.7 of its radius
    \cup If(e.reach /\ \E i \in 1..e.k : LET g == Grp(e, i)
                                          r == (7 * (Radius10(e, i) - 2)) \div 10
                                      IN  \A j \in 2..Len(g) : D10(g[1], g[j]) < r * r, "group_fills_its_circle")
\* offspring in equal eighths of the circle (4 quadrants x inner/outer half)
Eighths(e) == If(SumSeq(e.c) # e.n, "group_within_its_circle")
              \cup If(\E k \in 1..8 : Abs(8 * e.c[k] - e.n) > 8 * Six(e.n \div 8), "uniform_in_its_circle")
CNormal(e) == If(Outside(e.x, e.hull), "within_the_hull")
\* default covariance, (mean distance of the replication's seeds)^2: the offspring
\* in the tenths, by probability, of that distribution cut off at the sides, per axis
CDefault(e) == If(\E j \in 1..2 : SumSeq(e.c[j]) # e.n \/ \E k \in 1..10 : Abs(10 * e.c[j][k] - e.n) > 10 * Six(e.n \div 10), "default_covariance_of_its_seeds")

(* inhibition ------------------------------------------------------------------ *)
ClosePairs(x, r10) == Cardinality({p \in (1..Len(x)) \X (1..Len(x)) : p[1] < p[2] /\ D10(x[p[1]], x[p[2]]) < r10 * r10})
HardCore(e) == If(Outside(e.x, e.hull), "within_the_hull")
               \cup If(ClosePairs(e.x, (e.r \div 10) - 2) > 0, "no_pair_closer_than_the_radius")
\* total pair counts for increasing gamma, the last for gamma = 1, over e.reps samples of e.n points
PairCounts(e) == If(\E i \in 1..(Len(e.c) - 1) : e.c[i] >= e.c[i + 1], "fewer_pairs_for_smaller_gamma")
                 \cup If(Abs(e.c[Len(e.c)] - e.want) > Six(e.want) * 2 + (e.want \div 5), "no_interaction_for_gamma_one")

(* legacy processes --------------------------------------------------------------- *)
\* one realization: e.rec the recorded number of points, e.want the requested one (-1: drawn)
Real(e) ==
    If(Len(e.x) # e.rec \/ e.shape # <<e.rec, 2>> \/ (e.want >= 0 /\ e.rec # e.want), "requested_number_of_points")
    \cup If(e.parents >= 0 /\ e.want < 0 /\ e.rec # e.parents * e.children, "recorded_number_of_parents")
    \cup If(Outside(e.x, e.hull), "within_the_window")
    \cup If(e.distinct # Len(e.x), "independent_points")
    \cup If(e.type # e.wanttype \/ (e.type = "pattern" /\ (e.winbox # RegBBox(HullReg(e.hull)) \/ e.winarea2 # RegArea2(HullReg(e.hull)))), "array_or_pattern_over_the_window")
Process(e) == If(e.keys # [i \in 1..e.samples |-> i - 1] \/ e.pkeys # e.keys \/ (e.parents >= 0 /\ e.nkeys # e.keys), "as_many_realizations_as_requested")
              \cup If(e.parents >= 0 /\ e.fixed /\ \E i \in 1..Len(e.nparents) : e.nparents[i] # e.parents, "recorded_number_of_parents")
\* drawn numbers: mean and variance of a Poisson distribution
Drawn(e) == LET n == Len(e.c)
                s == SumSeq(e.c)
                d == SumSeq([i \in 1..n |-> (e.c[i] - e.lam) * (e.c[i] - e.lam)])
            IN  If(Abs(s - (n * e.lam)) > Six(n * e.lam), "poisson_number_of_points")
                \cup If(Abs(d - (n * e.lam)) > (7 * ISqrt(2 * n) * e.lam) + Six(n * e.lam), "poisson_number_of_points")
\* components of points linked by distances up to two radii (r10 in steps of 10)
RECURSIVE Grow(_, _, _)
Grow(x, S, r10) == LET T == S \cup {j \in 1..Len(x) : \E i \in S : D10(x[i], x[j]) <= 4 * r10 * r10}
                   IN  IF T = S THEN S ELSE Grow(x, T, r10)
RECURSIVE Comps(_, _, _)
Comps(x, left, r10) == IF left = {} THEN {} ELSE LET c == Grow(x, {CHOOSE i \in left : TRUE}, r10) IN {c} \cup Comps(x, left \ c, r10)
\* one round of offspring: at most e.parents circles of e.children points (and their centres)
Round(e) ==
    LET r10 == (e.r \div 10) + 1
        per == e.children + (IF e.keep THEN 1 ELSE 0)
        cs == Comps(e.x, 1..Len(e.x), r10)
    IN  If(e.full /\ Len(e.x) # ((e.n + e.children - 1) \div e.children) * per, "requested_number_of_points")
        \cup If(Cardinality(cs) > e.parents, "at_most_the_recorded_parents")
        \cup If(\E c \in cs : Cardinality(c) <= per /\ \E i, j \in c : D10(e.x[i], e.x[j]) > 4 * r10 * r10, "offspring_within_its_circle")
        \cup If(\E c \in cs : Cardinality(c) >= 12 /\ \A i, j \in c : D10(e.x[i], e.x[j]) < r10 * r10, "offspring_fill_their_circle")
        \cup If(e.keep /\ e.full /\ \E c \in cs : Cardinality(c) = per /\ ~\E i \in c : \A j \in c : D10(e.x[i], e.x[j]) <= (r10 + 1) * (r10 + 1), "centres_kept")
\* realizations with more components than parents: only when points fell outside
Over(e) == If(3 * e.over > e.total, "at_most_the_recorded_parents")
Circle(e) == If(e.shape # <<e.n, 2>>, "requested_number_of_points")
             \cup If(\E i \in 1..Len(e.x) : D10(e.x[i], e.c) > ((e.r \div 10) + 2) * ((e.r \div 10) + 2), "within_the_circle")
             \cup If(e.distinct # Len(e.x), "independent_points")

Bad(s, e) ==
    CASE e.op \in {"Fail", "Crash"} -> {"no_exception"}
      [] e.op = "Parsed" -> Parsed(e)
      [] e.op = "Reject" -> Reject(e)
      [] e.op = "Error" -> If(e.kind = "", "rejected")
      [] e.exc # "" -> {"no_exception"}
      [] e.op = "Shape" -> Shape(e)
      [] e.op = "Uniform" -> Uniform(e)
      [] e.op = "Halves" -> Halves(e)
      [] e.op = "Moments" -> Moments(e)
      [] e.op = "Default" -> Default(e)
      [] e.op = "CPoisson" -> CPoisson(e)
      [] e.op = "Eighths" -> Eighths(e)
      [] e.op = "CNormal" -> CNormal(e)
      [] e.op = "CDefault" -> CDefault(e)
      [] e.op = "HardCore" -> HardCore(e)
      [] e.op = "PairCounts" -> PairCounts(e)
      [] e.op = "Real" -> Real(e)
      [] e.op = "Process" -> Process(e)
      [] e.op = "Drawn" -> Drawn(e)
      [] e.op = "Round" -> Round(e)
      [] e.op = "Over" -> Over(e)
      [] e.op = "Circle" -> Circle(e)
      [] e.op = "Equal" -> If(e.a # e.b, e.what)
      [] OTHER -> {"unknown_event"}
Post(s, e) == s
Trace == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH St0 <- 0
=============================================================================

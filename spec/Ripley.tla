------------------------------- MODULE Ripley -------------------------------
(* Distance functions of a point pattern.  Distances and support values are    *)
(* compared through their squares: a distance is its squared value (integer),  *)
(* a support value the square of it as a rational.                             *)
EXTENDS Geo

D2(m, p, q) ==
    LET dx == Abs(p[1] - q[1])
        dy == Abs(p[2] - q[2])
        d == IF m = "chebyshev" THEN Max2(dx, dy) ELSE dx + dy
    IN  IF m = "euclidean" THEN dx * dx + dy * dy ELSE d * d

\* squared distance to the nearest other point
NN2(m, p) == [i \in 1..Len(p) |-> MinSet({D2(m, p[i], p[j]) : j \in (1..Len(p)) \ {i}})]
\* squared distances of all unordered pairs
Pairs2(m, p) == [k \in {<<i, j>> \in (1..Len(p)) \X (1..Len(p)) : i < j} |-> D2(m, p[k[1]], p[k[2]])]

\* number of distances < / <= the support value; d and s squared
LessThan(ds, s) == Cardinality({i \in DOMAIN ds : ds[i] * s[2] < s[1]})
AtMost(ds, s) == Cardinality({i \in DOMAIN ds : ds[i] * s[2] <= s[1]})

(* the values an empirical distribution function may take at support value i   *)
EcdfVals(ds, ss, i) == {Rat(c, Cardinality(DOMAIN ds)) :
                            c \in (IF i = Len(ss) THEN AtMost(ds, ss[i]) ELSE LessThan(ds, ss[i]))..AtMost(ds, ss[i])}
\* pair counts (K counts strictly closer pairs)
PairVals(ds, ss, i) == LessThan(ds, ss[i])..(IF i = Len(ss) THEN LessThan(ds, ss[i]) ELSE AtMost(ds, ss[i]))
\* K for c unordered pairs, n points, window area A (rational)
KVal(A, c, n) == RMul(A, Rat(2 * c, n * n))

\* J: <<0, 0>> where it is not a number, <<1, 0>> where it is infinite
JVal(gv, fv) == IF fv = <<1, 1>> THEN (IF gv = <<1, 1>> THEN <<0, 0>> ELSE <<1, 0>>)
                ELSE RDiv(RSub(<<1, 1>>, gv), RSub(<<1, 1>>, fv))
\* number of support values before the first undefined one
JCut(js) == IF \A i \in 1..Len(js) : IsNum(js[i]) THEN Len(js)
            ELSE MinSet({i \in 1..Len(js) : ~IsNum(js[i])}) - 1

(* requested supports, as squares: sup is a record                             *)
(*   int:    m steps from 0 to the largest nearest-neighbour distance          *)
(*   tuple:  from a to b (rationals) in m steps;   list: the values themselves *)
Sq(r) == RMul(r, r)
SupportSq(sup, m, p) ==
    CASE sup.kind = "int" -> LET nn == NN2(m, p)
                                 far == TLCEval(MaxSet({nn[k] : k \in 1..Len(p)}))
                             IN  [i \in 1..sup.m |-> IF sup.m = 1 THEN <<0, 1>>
                                                      ELSE RMul(RInt(far), Rat((i - 1) * (i - 1), (sup.m - 1) * (sup.m - 1)))]
      [] sup.kind = "lin" -> [i \in 1..sup.m |-> Sq(RAdd(sup.a, RMul(RSub(sup.b, sup.a), Rat(i - 1, sup.m - 1))))]
      [] sup.kind = "list" -> [i \in 1..Len(sup.v) |-> Sq(sup.v[i])]

(* the fraction (permille) of the cells within distance d of the points; there
   are r cells per lattice unit and coordinates of cell centres are times 2r     *)
EmptyFrac(m, p, cells, s, r) ==
    LET pp == [i \in 1..Len(p) |-> <<2 * r * p[i][1], 2 * r * p[i][2]>>]
    IN  (1000 * Cardinality({c \in cells : \E i \in 1..Len(p) : D2(m, c, pp[i]) * s[2] <= 4 * r * r * s[1]})) \div Cardinality(cells)
=============================================================================

------------------------------ MODULE Quadrat ------------------------------
(* Quadrat grids and the chi-square statistic of their counts.                *)
(*                                                                             *)
(* Rectangular grids: a cell has extent <<a, b>> (the rational a/b lattice     *)
(* units) in each direction, starting at the lower left corner of the          *)
(* bounding box.  Hexagonal grids: with h units to half a side and h units to  *)
(* half a height, the hexagon around c is |dv| <= h /\ |du| + |dv| <= 2h, so   *)
(* that everything stays in the integers although the height is irrational.    *)
EXTENDS Num, TLC, SequencesExt

CeilDiv(a, b) == (a + b - 1) \div b

(* rectangles -------------------------------------------------------------- *)
\* indices of the closed (open) cells of extent a/b that contain offset u
RIdxClosed(u, a, b, n) == {i \in 0..(n - 1) : i * a <= u * b /\ u * b <= (i + 1) * a}
\* the columns (rows) a range r needs for cells of extent a/b
RCount(r, a, b) == Max2(1, CeilDiv(r * b, a))
RCells(p, g) == {c[1] + c[2] * g.nc : c \in RIdxClosed(p[1], g.w[1], g.w[2], g.nc)
                                            \X RIdxClosed(p[2], g.h[1], g.h[2], g.nr)}
\* the rule of the implementation
RRule(p, g) == LET i == IF g.w[1] = 0 THEN 0 ELSE Min2((p[1] * g.w[2]) \div g.w[1], g.nc - 1)
                   j == IF g.h[1] = 0 THEN 0 ELSE Min2((p[2] * g.h[2]) \div g.h[1], g.nr - 1)
               IN  i + j * g.nc

(* hexagons ---------------------------------------------------------------- *)
HCentre(i, j, h) == <<3 * h * i, IF i % 2 = 0 THEN 2 * h * j ELSE 2 * h * j + h>>
InHex(p, c, h) == LET du == Abs(p[1] - c[1])
                      dv == Abs(p[2] - c[2])
                  IN  dv <= h /\ du + dv <= 2 * h
\* numbers of columns, of rows in even and in odd columns for a bounding box U x V
HCols(U, h) == IF U > h THEN 1 + CeilDiv(U - h, 3 * h) ELSE 1
HEven(V, h) == IF V > h THEN 1 + CeilDiv(V - h, 2 * h) ELSE 1
HOdd(V, h) == Max2(1, CeilDiv(V, 2 * h))
HGrid(U, V, h) == {<<i, j>> \in (0..(HCols(U, h) - 1)) \X (0..(Max2(HEven(V, h), HOdd(V, h)) - 1)) :
                        j < (IF i % 2 = 0 THEN HEven(V, h) ELSE HOdd(V, h))}
HNum(U, V, h) == LET n == HCols(U, h)
                 IN  HEven(V, h) * ((n \div 2) + (n % 2)) + HOdd(V, h) * (n \div 2)
HCells(p, grid, h) == {c \in grid : InHex(p, HCentre(c[1], c[2], h), h)}
\* the same, looking only at the cells whose centre is within reach
HCellsNear(p, grid, h) ==
    {c \in (((p[1] \div (3 * h)) - 1)..((p[1] \div (3 * h)) + 2)) \X (((p[2] \div (2 * h)) - 2)..((p[2] \div (2 * h)) + 2)) : c \in grid /\ InHex(p, HCentre(c[1], c[2], h), h)}

(* counts --------------------------------------------------------------------
   opts[i]: the set of cells that contain point i; cnt: a function from cells
   to counts.  The counts are right iff every point can be given to one of its
   cells such that these are the counts.                                      *)
\* the remainders that are left when every point of opts went to one of its cells
Spend(R, o) == UNION {{[r EXCEPT ![c] = @ - 1] : c \in {d \in o : r[d] > 0}} : r \in R}
RECURSIVE Assign(_, _)
Assign(opts, R) == IF R = {} THEN FALSE
                   ELSE IF opts = <<>> THEN \E r \in R : \A c \in DOMAIN r : r[c] = 0
                   ELSE Assign(Tail(opts), TLCEval(Spend(R, Head(opts))))

CountsOK(opts, cnt) ==
    LET sure == SelectSeq(opts, LAMBDA o : Cardinality(o) = 1)
        tie == SelectSeq(opts, LAMBDA o : Cardinality(o) # 1)
        sc == {CHOOSE c \in sure[i] : TRUE : i \in 1..Len(sure)}
        tc == {c \in DOMAIN cnt : \E i \in 1..Len(tie) : c \in tie[i]}
        rest == TLCEval([c \in DOMAIN cnt |-> IF c \in sc THEN cnt[c] - Cardinality({i \in 1..Len(sure) : sure[i] = {c}}) ELSE cnt[c]])
        may(c) == Cardinality({i \in 1..Len(tie) : c \in tie[i]})
    IN  /\ \A i \in 1..Len(opts) : opts[i] \subseteq DOMAIN cnt /\ opts[i] # {}
        /\ \A c \in DOMAIN cnt : rest[c] >= 0 /\ IF c \in tc THEN rest[c] <= may(c) ELSE rest[c] = 0
        /\ Len(tie) = FoldSet(LAMBDA c, s : s + rest[c], 0, tc)
        /\ (Len(tie) > 20 \/ Assign(tie, {[c \in tc |-> rest[c]]}))

(* chi-square ----------------------------------------------------------------
   k cells, n points, sum of squares s: chi2 = k s / n - n.                   *)
Chi2(c) == LET n == SumSeq(c)
               s == SumSeq([i \in 1..Len(c) |-> c[i] * c[i]])
           IN  Rat(Len(c) * s - n * n, n)
Contrib(c, i) == LET n == SumSeq(c)
                     k == Len(c)
                 IN  Rat((k * c[i] - n) * (k * c[i] - n), n * k)

\* SqSums(n, k)[m + 1] = attainable sums of squares of k counts that sum to m
SqStep(F) == TLCEval([m \in 1..Len(F) |-> UNION {{s + o * o : s \in F[m - o]} : o \in 0..(m - 1)}])
RECURSIVE SqIter(_, _)
SqIter(F, k) == IF k = 0 THEN F ELSE SqIter(SqStep(F), k - 1)
SqSums(n, k) == SqIter([m \in 1..(n + 1) |-> IF m = 1 THEN {0} ELSE {}], k)[n + 1]

(* tail of the chi-square distribution, times 10000 -------------------------- *)
MulDiv(a, b, c) == (a \div c) * b + ((a % c) * b) \div c
RECURSIVE SeriesFrom(_, _, _, _, _)
\* sum of t, t h/(a+1), t h^2/((a+1)(a+2)), ...; a2 = 2a, h = hs/1000;
\* t carries an extra scale sc, given up when t grows
SeriesFrom(t, a2, hs, acc, sc) ==
    IF t = 0 THEN acc
    ELSE IF t > 1000000 /\ sc > 1 THEN SeriesFrom(t \div 10, a2, hs, acc, sc \div 10)
    ELSE SeriesFrom(MulDiv(t, hs, 500 * (a2 + 2)), a2 + 2, hs, acc + t \div sc, sc)
RECURSIVE TermTo(_, _, _, _, _)
\* <<t, scale>> for t = h^a / Gamma(a + 1) at a = to/2
TermTo(t, a2, to, hs, sc) ==
    IF a2 >= to THEN <<t, sc>>
    ELSE IF t > 1000000 /\ sc > 1 THEN TermTo(t \div 10, a2, to, hs, sc \div 10)
    ELSE TermTo(MulDiv(t, hs, 500 * (a2 + 2)), a2 + 2, to, hs, sc)
\* 10000 a / b for 0 <= a <= b
Frac(a, b) == IF b > 20000000 THEN (((a \div 100) * 100) \div (b \div 100)) * 100
                                   + (((((a \div 100) * 100) % (b \div 100)) * 100) \div (b \div 100))
              ELSE ((a * 100) \div b) * 100 + ((((a * 100) % b) * 100) \div b)
\* upper tail at 2h with df degrees of freedom, 0 <= h <= 19
ChiTail(hs, df) ==
    LET sc == IF hs <= 5000 THEN 10000 ELSE IF hs <= 9500 THEN 1000 ELSE 1
        b == Max2(1000, sc)
        exp == SeriesFrom(b, 0, hs, 0, b \div sc)
        t0 == IF df % 2 = 0 THEN TermTo(b, 0, df, hs, b \div sc)
              ELSE TermTo(IF b = 1000 THEN ISqrt(hs * 1273) ELSE ISqrt(hs * 127324), 1, df, hs, b \div sc)
        low == SeriesFrom(t0[1], df, hs, 0, t0[2])
    IN  IF sc = 1 /\ df <= 3 THEN 0 ELSE Frac(Max2(0, exp - low), exp)
\* slack of the above; the tail of one degree of freedom is steep at 0, as 1 - Sqrt
ChiSlack(hs, df) == 15 + (IF df # 1 THEN 0 ELSE IF hs = 0 THEN 345 ELSE 180 \div ISqrt(hs))
=============================================================================

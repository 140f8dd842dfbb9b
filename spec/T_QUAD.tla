------------------------------- MODULE T_QUAD -------------------------------
(* Verdict on recorded quadrat counts and statistics.                         *)
EXTENDS Quadrat, Json, IOUtils
VARIABLES l, st
If(c, name) == IF c THEN {name} ELSE {}

Off(p) == LET x0 == MinSet({p[i][1] : i \in 1..Len(p)})
              y0 == MinSet({p[i][2] : i \in 1..Len(p)})
          IN  [i \in 1..Len(p) |-> <<p[i][1] - x0, p[i][2] - y0>>]
MaxOf(p, k) == MaxSet({p[i][k] : i \in 1..Len(p)})

(* rectangles; a range that is an exact multiple of the given size may, by
   rounding, get one more column, unless ex: all of the numbers are exact      *)
OkCount(got, r, c, ex) ==
    \/ got = RCount(r, c[1], c[2])
    \/ ~ex /\ (r * c[2]) % c[1] = 0 /\ got = RCount(r, c[1], c[2]) + 1
Near(a, b) == Abs(a - b) <= 2
CellAt(g, c) == \* fixed point, 1000 per lattice unit
    LET i == c.id % g.nc
        j == c.id \div g.nc
    IN  /\ Near(c.b[1], (1000 * i * g.w[1]) \div g.w[2]) /\ Near(c.b[3], (1000 * (i + 1) * g.w[1]) \div g.w[2])
        /\ Near(c.b[2], (1000 * j * g.h[1]) \div g.h[2]) /\ Near(c.b[4], (1000 * (j + 1) * g.h[1]) \div g.h[2])

Rect(e) ==
    LET p == Off(e.pts)
        U == MaxOf(p, 1)
        V == MaxOf(p, 2)
        g == [nc |-> e.cols, nr |-> e.rows,
              w |-> IF e.mode = "count" THEN <<U, e.nc>> ELSE e.w,
              h |-> IF e.mode = "count" THEN <<V, e.nr>> ELSE e.h]
        keys == {e.keys[i] : i \in 1..Len(e.keys)}
        cnt == TLCEval([k \in keys |-> e.vals[CHOOSE i \in 1..Len(e.keys) : e.keys[i] = k]])
        sizes == IF e.mode = "count" THEN e.cols = e.nc /\ e.rows = e.nr
                 ELSE OkCount(e.cols, U, e.w, e.ex) /\ OkCount(e.rows, V, e.h, e.ex)
    IN  If(~sizes, "grid_dimensions")
        \cup If(e.num # e.cols * e.rows, "number_of_cells")
        \cup If(keys # 0..(e.cols * e.rows - 1) \/ Cardinality(keys) # Len(e.keys), "every_cell_listed_once")
        \cup If(SumSeq(e.vals) # Len(p), "counts_sum_to_n")
        \cup If(sizes /\ ~CountsOK([i \in 1..Len(p) |-> RCells(p[i], g)], cnt), "point_in_its_cell")
        \cup If(Len(e.cells) > 0 /\ (\/ {e.cells[i].id : i \in 1..Len(e.cells)} # keys
                                      \/ Len(e.cells) # Len(e.keys)
                                      \/ (sizes /\ \E i \in 1..Len(e.cells) : ~CellAt(g, e.cells[i]))), "cells_tile_bounding_box")

(* hexagons: cell <<column, row>> -------------------------------------------- *)
Samp(n) == IF n <= 24 THEN 0..n ELSE {(i * n) \div 24 : i \in 0..24}
HexAt(c, h) == \* plotted hexagon, 1000 per lattice unit; six corners
    LET m == HCentre(c.ij[1], c.ij[2], h)
    IN  {<<Abs(2 * h), 0>>, <<-2 * h, 0>>, <<h, h>>, <<h, -h>>, <<-h, h>>, <<-h, -h>>} =
        {<<(c.v[i][1] + 500) \div 1000 - m[1], (c.v[i][2] + 500) \div 1000 - m[2]>> : i \in 1..Len(c.v)}
Hex(e) ==
    LET p == Off(e.pts)
        U == MaxOf(p, 1)
        V == MaxOf(p, 2)
        keys == {e.keys[i] : i \in 1..Len(e.keys)}
        cnt == TLCEval([k \in keys |-> e.vals[CHOOSE i \in 1..Len(e.keys) : e.keys[i] = k]])
        at(q) == HCellsNear(q, keys, e.h)
    IN  If(e.num # Len(e.keys), "number_of_cells")
        \cup If(Cardinality(keys) # Len(e.keys), "every_cell_listed_once")
        \cup If(SumSeq(e.vals) # Len(p), "counts_sum_to_n")
        \cup If(\E q \in Samp(U) \X Samp(V) : at(q) = {}, "grid_covers_bounding_box")
        \cup If(~CountsOK([i \in 1..Len(p) |-> at(p[i])], cnt), "point_in_its_cell")
        \cup If(Len(e.cells) > 0 /\ (\/ {e.cells[i].ij : i \in 1..Len(e.cells)} # keys
                                      \/ Len(e.cells) # Len(e.keys)
                                      \/ \E i \in 1..Len(e.cells) : ~HexAt(e.cells[i], e.h)), "cells_are_hexagons")

(* statistics ------------------------------------------------------------------ *)
Half(q) == IF q[2] * 2000 > 0 THEN MulDiv(q[1], 500, q[2]) ELSE 0
Stat(e) ==
    LET c == e.counts
        x == Chi2(c)
        hs == Half(x)
        df == Len(c) - 1
    IN  If(e.chi2 # x, "chi_square_of_the_counts")
        \cup If(e.df # df, "degrees_of_freedom")
        \cup If(~e.ids, "cell_ids_listed")
        \cup If(Len(e.contrib) # Len(c) \/ \E i \in 1..Len(e.contrib) : e.contrib[i] # Contrib(c, i), "contributions")
        \cup If(df >= 1 /\ (IF hs <= 19000 THEN Abs(e.p - ChiTail(hs, df)) > ChiSlack(hs, df)
                            ELSE e.p > ChiTail(19000, df) + ChiSlack(19000, df)), "analytical_p_value")

\* v = k s / n - n for some attainable sum of squares s
Attain(v, n, k) == LET m == (v[1] + n * v[2]) * n
                   IN  IsNum(v) /\ m % (v[2] * k) = 0
                       /\ LET s == m \div (v[2] * k)
                          IN  s * k >= n * n /\ s <= n * n /\ (s - n) % 2 = 0
                              /\ (n > 16 \/ k > 16 \/ s \in SqSums(n, k))
Sim(e) ==
    LET ge == Cardinality({i \in 1..Len(e.sims) : IsNum(e.sims[i]) /\ RLeq(e.chi2, e.sims[i])})
        vals == {e.sims[i] : i \in 1..Len(e.sims)}
    IN  If(Len(e.sims) # e.R, "one_statistic_per_realization")
        \cup If(e.p # Rat(ge + 1, e.R + 1), "pseudo_p_value")
        \cup If(\E v \in vals : \A k \in 1..e.kmax : (e.k > 0 /\ k # e.k) \/ ~Attain(v, e.n, k), "simulated_statistic_attainable")
Spread(e) == If(e.mean < e.lo \/ e.mean > e.hi, "simulated_in_window")

Bad(s, e) ==
    CASE e.op \in {"Fail", "Crash"} -> {"no_exception"}
      [] e.op = "Error" -> If(e.kind # e.want, "rejected_with_" \o e.want)
      [] e.exc # "" -> {"no_exception"}
      [] e.op = "Rect" -> Rect(e)
      [] e.op = "Hex" -> Hex(e)
      [] e.op = "Stat" -> Stat(e)
      [] e.op = "Sim" -> Sim(e)
      [] e.op = "Spread" -> Spread(e)
      [] e.op = "Same" -> If((e.a = e.b) # e.want, IF e.want THEN "same_seed_same_result" ELSE "different_seed_different_result")
      [] e.op = "Equal" -> If(e.a # e.b, e.what)
      [] OTHER -> {"unknown_event"}
Post(s, e) == s
Trace == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH St0 <- 0
=============================================================================

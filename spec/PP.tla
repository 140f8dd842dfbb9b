--------------------------------- MODULE PP ---------------------------------
(* What a point pattern is, and what every operation on it means.            *)
(*                                                                           *)
(* A pattern is an immutable value here; objects (identity, aliasing, cached *)
(* values) are modelled in PPSession and PPCache.                            *)
(*   cols   sequence of column names                                         *)
(*   rows   sequence of rows, one integer per column                         *)
(*   cx, cy names of the coordinate columns                                  *)
(*   marks  number of mark columns the pattern counts                        *)
(*   win    <<left, bottom, right, top, twice the area>> of its window       *)
EXTENDS Geo

Idx(cols, c) == CHOOSE i \in 1..Len(cols) : cols[i] = c
PtsOf(p) == [i \in 1..Len(p.rows) |-> <<p.rows[i][Idx(p.cols, p.cx)], p.rows[i][Idx(p.cols, p.cy)]>>]
PtSet(p) == {PtsOf(p)[i] : i \in 1..Len(p.rows)}
MBB(p) == BBox(PtSet(p))
RectWin(b) == <<b[1], b[2], b[3], b[4], 2 * (b[3] - b[1]) * (b[4] - b[2])>>

MarkNames(a, n) == [i \in 1..n |-> "mark_" \o ToString(a + i)]

\* names / coords / win = <<>> means: not given
NewPat(rows, names, coords, win) ==
    LET w == Len(rows[1])
        cn == IF coords # <<>> THEN coords
              ELSE IF names # <<>> THEN SubSeq(names, 1, 2)
              ELSE <<"x", "y">>
        cols == IF names # <<>> THEN names ELSE cn \o MarkNames(-1, w - 2)
        p == [cols |-> cols, rows |-> rows, cx |-> cn[1], cy |-> cn[2], marks |-> w - 2, win |-> <<>>]
    IN  [p EXCEPT !.win = IF win = <<>> THEN RectWin(MBB(p)) ELSE win]

\* new columns; vals[j] is the j-th new column. Existing names are overwritten.
RECURSIVE AddCols(_, _, _)
AddCols(p, names, vals) ==
    IF names = <<>> THEN p
    ELSE LET c == Head(names)
             v == Head(vals)
             old == \E i \in 1..Len(p.cols) : p.cols[i] = c
             q == IF old
                  THEN [p EXCEPT !.rows = [i \in 1..Len(p.rows) |-> [p.rows[i] EXCEPT ![Idx(p.cols, c)] = v[i]]]]
                  ELSE [p EXCEPT !.cols = Append(p.cols, c),
                                 !.rows = [i \in 1..Len(p.rows) |-> Append(p.rows[i], v[i])]]
         IN  AddCols([q EXCEPT !.marks = p.marks + 1], Tail(names), Tail(vals))
AddMarks(p, names, vals) ==
    AddCols(p, IF names = <<>> THEN MarkNames(p.marks, Len(vals)) ELSE names, vals)

RECURSIVE Dedup(_, _)
Dedup(rows, seen) == IF rows = <<>> THEN <<>>
                     ELSE IF Head(rows) \in seen THEN Dedup(Tail(rows), seen)
                     ELSE <<Head(rows)>> \o Dedup(Tail(rows), seen \cup {Head(rows)})
Unique(p) == [p EXCEPT !.rows = Dedup(p.rows, {}), !.marks = Len(p.cols) - 2]

Derived(rows, p) == LET r == [p EXCEPT !.rows = rows, !.marks = Len(p.cols) - 2]
                    IN  [r EXCEPT !.win = RectWin(MBB(r))]
Compatible(p, q) == p.cols = q.cols /\ <<p.cx, p.cy>> = <<q.cx, q.cy>>
Superimpose(p, q) == Derived(Dedup(p.rows \o q.rows, {}), p)

ColVals(p, c) == {p.rows[i][Idx(p.cols, c)] : i \in 1..Len(p.rows)}
SubPat(p, c, v) == Derived(SelectSeq(p.rows, LAMBDA r : r[Idx(p.cols, c)] = v), p)
\* one pattern per value of the mark, in increasing order of the value
Explode(p, c) == LET vs == SetToSortSeq(ColVals(p, c), <)
                 IN  [i \in 1..Len(vs) |-> SubPat(p, c, vs[i])]

Member(p, pt) == pt \in PtSet(p)

(* derived quantities ------------------------------------------------------- *)
N(p) == Len(p.rows)
W(b) == b[3] - b[1]
H(b) == b[4] - b[2]
MBBArea(p) == W(MBB(p)) * H(MBB(p))
Rot(p) == Rat(Min2(W(MBB(p)), H(MBB(p))), 4)
HullArea(p) == Rat(Area2(Hull(PtSet(p))), 2)
Over(n, a) == RDiv(RInt(n), a)
WinArea(p) == Rat(p.win[5], 2)
NND2(p, i) == MinSet({Dist2(PtsOf(p)[i], PtsOf(p)[j]) : j \in (1..N(p)) \ {i}})

CanHull(p) == ~Collinear(PtSet(p))
CanNN(p) == N(p) >= 2
Attrs == {"n", "len", "mbb", "mbb_area", "rot", "lambda_mbb", "lambda_window", "lambda_hull",
          "hull", "hull_area", "nnd", "min_nnd", "max_nnd", "mean_nnd", "summary", "head", "tail"}
Readable(p, a) ==
    CASE a \in {"hull", "hull_area", "lambda_hull"} -> CanHull(p)
      [] a \in {"nnd", "min_nnd", "max_nnd", "mean_nnd"} -> CanNN(p)
      [] a \in {"lambda_window", "summary"} -> p.win[5] > 0
      [] OTHER -> TRUE
=============================================================================

------------------------------- MODULE T_PLOT -------------------------------
(* Verdict on recorded plots of patterns, quadrat grids and quadrat statistics.  *)
(* An axes is recorded as its point markers, its rings (closed outlines, without *)
(* the repeated first vertex) and its texts; coordinates in 1/1000 of a lattice  *)
(* unit relative to the origin of the lattice.                                   *)
EXTENDS Quadrat, Json, IOUtils
VARIABLES l, st
Hulls == INSTANCE Geo
If(c, name) == IF c THEN {name} ELSE {}
Near(a, b, t) == Abs(a - b) <= t
Same(p, q, t) == Near(p[1], q[1], t) /\ Near(p[2], q[2], t)
Mil(p) == <<1000 * p[1], 1000 * p[2]>>

\* the markers are the points, each as often as it occurs
Round(v) == IF v % 1000 <= 500 THEN v \div 1000 ELSE (v \div 1000) + 1
OnLattice(p, t) == Near(p[1], 1000 * Round(p[1]), t) /\ Near(p[2], 1000 * Round(p[2]), t)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Points(e) == LET got == [i \in 1..Len(e.marks) |-> <<Round(e.marks[i][1]), Round(e.marks[i][2])>>]
             IN  If(\/ Len(got) # Len(e.pts)
                    \/ \E i \in 1..Len(e.marks) : ~OnLattice(e.marks[i], e.slack)
                    \/ \E x \in Range(e.pts) \cup Range(got) : Count(got, x) # Count(e.pts, x), "every_point_at_its_coordinates")

(* rings: equal up to first vertex and direction ------------------------------- *)
Turn(r, k, s) == [i \in 1..Len(r) |-> r[(((k - 1) + s * (i - 1)) % Len(r)) + 1]]
SameRing(a, b, t) == /\ Len(a) = Len(b)
                     /\ \E k \in 1..Len(a), s \in {1, -1} : LET c == Turn(a, k, s) IN \A i \in 1..Len(a) : Same(c[i], b[i], t)
\* every expected ring is drawn, once, and nothing else is
Key(r) == <<Len(r), SumSeq([i \in 1..Len(r) |-> r[i][1]]), SumSeq([i \in 1..Len(r) |-> r[i][2]])>>
Match(rings, want, t) ==
    /\ Len(rings) = Len(want)
    /\ LET kr == TLCEval([i \in 1..Len(rings) |-> Key(rings[i])])
           kw == TLCEval([i \in 1..Len(want) |-> Key(want[i])])
           like(a, b) == a[1] = b[1] /\ Near(a[2], b[2], t * a[1]) /\ Near(a[3], b[3], t * a[1])
       IN  \A i \in 1..Len(want) : Cardinality({k \in 1..Len(rings) : like(kr[k], kw[i]) /\ SameRing(rings[k], want[i], t)})
                                    = Cardinality({k \in 1..Len(want) : like(kw[k], kw[i]) /\ SameRing(want[k], want[i], t)})
RegRings(R) == FlattenSeq([i \in 1..Len(R) |-> [j \in 1..Len(R[i]) |-> [v \in 1..Len(R[i][j]) |-> Mil(R[i][j][v])]]])
HullRing(p) == LET h == Hulls!Hull(Range(p)) IN [i \in 1..Len(h) |-> Mil(h[i])]
BoxRing(p) == LET b == Hulls!BBox(Range(p)) IN <<Mil(<<b[1], b[2]>>), Mil(<<b[3], b[2]>>), Mil(<<b[3], b[4]>>), Mil(<<b[1], b[4]>>)>>
Win(e) == IF e.win = <<>> THEN <<BoxRing(e.pts)>> ELSE RegRings(e.win)

Pattern(e) == Points(e)
    \cup If(~Match(e.rings, (IF e.window THEN Win(e) ELSE <<>>) \o (IF e.hull THEN <<HullRing(e.pts)>> ELSE <<>>), e.slack), "exactly_the_requested_outlines")
    \cup If(e.title # e.wanttitle, "title")

(* quadrats ----------------------------------------------------------------------- *)
X0(e) == MinSet({e.pts[i][1] : i \in 1..Len(e.pts)})
Y0(e) == MinSet({e.pts[i][2] : i \in 1..Len(e.pts)})
Offs(e) == [i \in 1..Len(e.pts) |-> <<e.pts[i][1] - X0(e), e.pts[i][2] - Y0(e)>>]
Grid(e) == LET p == Offs(e)  U == MaxSet({p[i][1] : i \in 1..Len(p)})  V == MaxSet({p[i][2] : i \in 1..Len(p)})
           IN  [nc |-> e.nc, nr |-> e.nr, w |-> IF e.mode = "count" THEN <<U, e.nc>> ELSE e.w, h |-> IF e.mode = "count" THEN <<V, e.nr>> ELSE e.h]
CellSet(e) == IF e.shape = "hexagon" THEN {<<c[1], c[2]>> : c \in Range(e.cells)} ELSE (0..(e.nc - 1)) \X (0..(e.nr - 1))
CellRing(e, c) ==
    IF e.shape = "hexagon"
    THEN LET m == HCentre(c[1], c[2], e.hh)
         IN  [i \in 1..6 |-> Mil(<<X0(e) + m[1] + (CASE i = 1 -> 2 * e.hh [] i \in {2, 6} -> e.hh [] i \in {3, 5} -> -e.hh [] OTHER -> -2 * e.hh),
                                   Y0(e) + m[2] + (CASE i \in {2, 3} -> e.hh [] i \in {5, 6} -> -e.hh [] OTHER -> 0)>>)]
    ELSE LET g == Grid(e)
             x(i) == 1000 * X0(e) + (1000 * i * g.w[1]) \div g.w[2]
             y(j) == 1000 * Y0(e) + (1000 * j * g.h[1]) \div g.h[2]
         IN  <<<<x(c[1]), y(c[2])>>, <<x(c[1] + 1), y(c[2])>>, <<x(c[1] + 1), y(c[2] + 1)>>, <<x(c[1]), y(c[2] + 1)>>>>
\* the cells that contain a position in their interior
Home(rs, p) == {c \in DOMAIN rs : LET r == rs[c] IN
                   /\ \E i \in 1..Len(r) : r[i][1] < p[1]
                   /\ \E i \in 1..Len(r) : r[i][1] > p[1]
                   /\ \E i \in 1..Len(r) : r[i][2] < p[2]
                   /\ \E i \in 1..Len(r) : r[i][2] > p[2]
                   /\ Hulls!InRingOpen(<<p[1], p[2]>>, r)}
Cells(e, p) == IF e.shape = "hexagon" THEN HCells(p, CellSet(e), e.hh)
               ELSE LET g == Grid(e) IN RIdxClosed(p[1], g.w[1], g.w[2], g.nc) \X RIdxClosed(p[2], g.h[1], g.h[2], g.nr)

Quad(e) ==
    LET cs == TLCEval(SetToSeq(CellSet(e)))
        rs == TLCEval([c \in Range(cs) |-> CellRing(e, c)])
        want == TLCEval([i \in 1..Len(cs) |-> rs[cs[i]]] \o Win(e))
        homes == TLCEval([i \in 1..Len(e.texts) |-> Home(rs, e.texts[i].at)])
        placed == /\ Len(e.texts) = Len(cs)
                  /\ \A i \in 1..Len(homes) : Cardinality(homes[i]) = 1
                  /\ UNION {homes[i] : i \in 1..Len(homes)} = Range(cs)
        label == TLCEval([c \in Range(cs) |-> e.texts[CHOOSE i \in 1..Len(homes) : homes[i] = {c}].v])
        p == Offs(e)
        \* the counts as the object reports them, by cell
        cnt == TLCEval([c \in Range(cs) |-> e.counts[CHOOSE i \in 1..Len(e.cells) : e.cells[i] = c]])
        N == Len(p)  K == Len(cs)
        contrib(c) == Rat((K * cnt[c] - N) * (K * cnt[c] - N), N * K)
        \* a decimal with two places, in 1/100, of the rational q; the given value v in 1/1000
        Two(x, q) == Abs(200 * q[1] - 2 * x * q[2]) <= q[2] + 1
    IN  Points(e)
        \cup If(~Match(e.rings, want, e.slack), "every_cell_and_the_window_once_in_place")
        \cup If(e.title # e.wanttitle, "title")
        \cup If(~placed, "one_label_per_cell")
        \cup If(placed /\ e.show = "counts" /\ ((\E c \in Range(cs) : label[c] % 100 # 0) \/ ~CountsOK([i \in 1..Len(p) |-> Cells(e, p[i])], [c \in Range(cs) |-> label[c] \div 100])),
                "labelled_with_the_count")
        \cup If(placed /\ e.show = "counts" /\ \E c \in Range(cs) : label[c] # 100 * cnt[c], "labelled_with_the_count_of_the_object")
        \cup If(placed /\ e.show = "chi2" /\ e.given = <<>> /\ \E c \in Range(cs) : ~Two(label[c], contrib(c)), "labelled_with_the_contribution")
        \cup If(placed /\ e.show = "chi2" /\ e.given # <<>> /\ \E i \in 1..Len(e.ids) : ~Two(label[e.ids[i]], <<e.given[i], 100>>), "labelled_with_the_given_values")
        \cup If(e.show = "chi2" /\ Len(e.tint) # Len(cs), "coloured_by_the_values")
        \cup If(placed /\ e.show = "chi2" /\ \E t \in Range(e.tint) : \E c \in Range(cs) :
                    Abs(t.v - label[c]) > 1 /\ SameRing(t.ring, rs[c], e.slack), "coloured_by_the_values")
        \cup If(e.hasids /\ (Range(e.ids) # Range(cs) \/ Len(e.ids) # Len(cs)), "cell_ids_returned")

(* sessions: st = the contents of the open figures, oldest first --------------------- *)
Rem(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Figs(s, e) ==
    CASE e.do = "close" -> If(e.figs # Rem(s, e.k), "other_figures_as_they_were")
      [] e.do = "select" -> If(e.figs # s, "other_figures_as_they_were")
      [] OTHER -> If(Len(e.figs) # Len(s) + 1 \/ (Len(e.figs) > 0 /\ SubSeq(e.figs, 1, Len(e.figs) - 1) # s), "other_figures_as_they_were")

Bad(s, e) ==
    CASE e.op \in {"Fail", "Crash"} -> {"no_exception"}
      [] e.op = "Error" -> If(e.kind # e.want, "rejected")
      [] e.exc # "" -> {"no_exception"}
      [] e.op = "Pattern" -> Pattern(e)
      [] e.op = "Quad" -> Quad(e)
      [] e.op = "Figs" -> Figs(s, e)
      [] e.op = "Begin" -> {}
      [] e.op = "Equal" -> If(e.a # e.b, e.what)
      [] OTHER -> {"unknown_event"}
Post(s, e) == IF e.op = "Begin" THEN <<>> ELSE IF e.op = "Figs" THEN e.figs ELSE s
Trace == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH St0 <- <<>>
=============================================================================

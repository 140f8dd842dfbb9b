------------------------------- MODULE T_DEN -------------------------------
(* Verdict on recorded density plots: the vertices of the contours, in 1/1000 of *)
(* a lattice unit, against the density of the recorded points.                   *)
EXTENDS Density, Json, IOUtils
VARIABLES l, st
If(c, name) == IF c THEN {name} ELSE {}

(* the mesh: e.res nodes per direction over the box of the points, enlarged by   *)
(* the margin e.m = <<mn, md>> on each side ------------------------------------ *)
Lo(e, c) == MinSet({e.pts[i][c] : i \in 1..Len(e.pts)})
Ext(e, c) == MaxSet({e.pts[i][c] : i \in 1..Len(e.pts)}) - Lo(e, c)
Node(e, c, i) == (U * Lo(e, c)) + ((U * Ext(e, c) * ((i * (e.m[2] + 2 * e.m[1])) - (e.m[1] * (e.res[c] - 1)))) \div (e.m[2] * (e.res[c] - 1)))
\* 1000 times the (fractional) index of a coordinate given in 1/1000
Idx(e, c, v) == ((((v - 1000 * Lo(e, c)) * e.m[2]) + (1000 * Ext(e, c) * e.m[1])) * (e.res[c] - 1)) \div (Ext(e, c) * (e.m[2] + 2 * e.m[1]))
Rem(x) == x % 1000
Whole(x) == LET r == x % 1000 IN IF r <= 500 THEN x \div 1000 ELSE (x \div 1000) + 1
Near(x, t) == x - 1000 * Whole(x) <= t /\ 1000 * Whole(x) - x <= t
Slack(e) == 4 + (e.res[1] + e.res[2]) \div 4
Grid(e) == TLCEval([i \in 0..(e.res[1] - 1) |-> [j \in 0..(e.res[2] - 1) |-> Dens(e.pts, e.h, e.ker, <<Node(e, 1, i), Node(e, 2, j)>>)]])
Tol(e) == 25 + 8 * Len(e.pts)

Coarse(e) ==
    LET z == Grid(e)
        L == Level(e.lev[e.k])
        T == Tol(e)
        s == Slack(e)
        vs == TLCEval({<<Idx(e, 1, v[1]), Idx(e, 2, v[2])>> : v \in Range(e.verts)})
        ok(v) == \A c \in {1, 2} : -s <= v[c] /\ v[c] <= 1000 * (e.res[c] - 1) + s
        corner == {v \in vs : Near(v[1], 40) /\ Near(v[2], 40)}
        hor == {v \in vs \ corner : Near(v[2], s)}
        ver == {v \in vs \ corner : Near(v[1], s)}
        zi(i, j) == z[i][j]
        on(a, b, t) == Abs(a + (((b - a) * t) \div 1000) - L) <= T + (Abs(b - a) * 3 * s) \div 1000
        clearUp(a) == a > L + T
        clearDn(a) == a < L - T
        cut(a, b) == (clearUp(a) /\ clearDn(b)) \/ (clearUp(b) /\ clearDn(a))
        sep(a, b) == (clearUp(a) /\ clearUp(b)) \/ (clearDn(a) /\ clearDn(b))
        hc == {<<v[1] \div 1000, Whole(v[2])>> : v \in hor}
        vc == {<<Whole(v[1]), v[2] \div 1000>> : v \in ver}
        cc == {<<Whole(v[1]), Whole(v[2])>> : v \in corner}
        He == {<<i, j>> : i \in 0..(e.res[1] - 2), j \in 0..(e.res[2] - 1)}
        Ve == {<<i, j>> : i \in 0..(e.res[1] - 1), j \in 0..(e.res[2] - 2)}
        inside == \A v \in vs : ok(v) /\ (v \in corner \/ v \in hor \/ v \in ver)
    IN  IF ~inside THEN {"vertices_on_the_requested_mesh"}
        ELSE If(\/ \E v \in hor : LET i == v[1] \div 1000  j == Whole(v[2]) IN ~on(zi(i, j), zi(i + 1, j), Rem(v[1]))
                \/ \E v \in ver : LET i == Whole(v[1])  j == v[2] \div 1000 IN ~on(zi(i, j), zi(i, j + 1), Rem(v[2])), "contours_on_level_sets")
        \cup If(\/ \E k \in He : cut(zi(k[1], k[2]), zi(k[1] + 1, k[2])) /\ k \notin hc /\ k \notin cc /\ <<k[1] + 1, k[2]>> \notin cc
                \/ \E k \in Ve : cut(zi(k[1], k[2]), zi(k[1], k[2] + 1)) /\ k \notin vc /\ k \notin cc /\ <<k[1], k[2] + 1>> \notin cc
                \/ \E k \in hc : sep(zi(k[1], k[2]), zi(k[1] + 1, k[2]))
                \/ \E k \in vc : sep(zi(k[1], k[2]), zi(k[1], k[2] + 1)), "every_level_set_drawn")

(* number and position of levels chosen for a requested number --------------- *)
Levels(e) ==
    LET z == Grid(e)
        all == UNION {{z[i][j] : j \in 0..(e.res[2] - 1)} : i \in 0..(e.res[1] - 1)}
        lo == MinSet(all)  hi == MaxSet(all)
        n == Len(e.lev)
        d == Level(e.lev[n]) - Level(e.lev[1])
    IN  If(n < 2, "requested_number_of_levels")
        \cup If(n >= 2 /\ (n - 1 > e.n + 2 \/ 3 * (n - 1) < e.n), "requested_number_of_levels")
        \cup If(n >= 2 /\ (\E i \in 1..n : Abs((Level(e.lev[i]) - Level(e.lev[1])) * (n - 1) - d * (i - 1)) > 8 * n), "levels_evenly_spaced")
        \cup If(n >= 2 /\ (Level(e.lev[1]) > lo + Tol(e) \/ Level(e.lev[n]) < hi - Tol(e)), "levels_cover_the_density")

(* fine meshes: the density itself ----------------------------------------------- *)
InU(v) == <<(v[1] * U) \div 1000, (v[2] * U) \div 1000>>
ZAt(e, v) == Dens(e.pts, e.h, e.ker, InU(v))
\* crossings of a polyline with the part of the line y = c between x = a and x = b
Crosses(p, q, a, b, c) == /\ (p[2] > c) # (q[2] > c)
                          /\ LET x == p[1] + ((c - p[2]) * (q[1] - p[1])) \div (q[2] - p[2]) IN a < x /\ x < b
RECURSIVE CountX(_, _, _, _, _, _)
CountX(r, k, a, b, c, n) == IF k >= Len(r) THEN n ELSE CountX(r, k + 1, a, b, c, n + (IF Crosses(r[k], r[k + 1], a, b, c) THEN 1 ELSE 0))
Fine(e) ==
    LET L == Level(e.lev[e.k])
        T == e.tol
        up(a) == a > L + T
        dn(a) == a < L - T
        xing(pr) == SumSeq([i \in 1..Len(e.lines) |-> CountX(e.lines[i], 1, pr[1], pr[2], pr[3], 0)]) % 2 = 1
        wrong(pr) == LET a == ZAt(e, <<pr[1], pr[3]>>)  b == ZAt(e, <<pr[2], pr[3]>>)
                     IN  \/ (((up(a) /\ dn(b)) \/ (up(b) /\ dn(a))) /\ ~xing(pr))
                         \/ (((up(a) /\ up(b)) \/ (dn(a) /\ dn(b))) /\ xing(pr))
    IN  If(\E v \in Range(e.verts) : Abs(ZAt(e, v) - L) > T, "contours_on_level_sets")
        \cup If(\E pr \in Range(e.probes) : wrong(pr), "every_level_set_drawn")
        \cup If(e.mesh /\ \E v \in Range(e.verts) : ~(Near(Idx(e, 1, v[1]), Slack(e)) \/ Near(Idx(e, 2, v[2]), Slack(e))), "vertices_on_the_requested_mesh")

(* filled: band k covers the cells whose corners are all within its levels ---- *)
RECURSIVE InBand(_, _, _)
InBand(p, rings, i) == IF i > Len(rings) THEN FALSE ELSE (CrossCount(p, rings[i], 1) % 2 = 1) # InBand(p, rings, i + 1)
Filled(e) ==
    LET z == Grid(e)
        L1 == Level(e.lev[e.k])  L2 == Level(e.lev[e.k + 1])
        T == Tol(e)
        cells == {<<i, j>> : i \in 0..(e.res[1] - 2), j \in 0..(e.res[2] - 2)}
        cor(k) == {z[k[1] + a][k[2] + b] : a \in {0, 1}, b \in {0, 1}}
        mid(k) == <<(5 * (Node(e, 1, k[1]) + Node(e, 1, k[1] + 1))) \div 2, (5 * (Node(e, 2, k[2]) + Node(e, 2, k[2] + 1))) \div 2>>
    IN  If(\E k \in cells : \/ ((\A x \in cor(k) : L1 + T < x /\ x < L2 - T) /\ ~InBand(mid(k), e.rings, 1))
                            \/ (((\A x \in cor(k) : x < L1 - T) \/ (\A x \in cor(k) : x > L2 + T)) /\ InBand(mid(k), e.rings, 1)), "bands_filled_between_their_levels")

\* e.probes in 1/1000, e.rings as well
Band(e) == LET L1 == Level(e.lev[e.k])  L2 == Level(e.lev[e.k + 1])
               wrong(p) == LET z == ZAt(e, p) IN
                   \/ (L1 + e.tol < z /\ z < L2 - e.tol /\ ~InBand(p, e.rings, 1))
                   \/ ((z < L1 - e.tol \/ z > L2 + e.tol) /\ InBand(p, e.rings, 1))
           IN  If(\E p \in Range(e.probes) : wrong(p), "bands_filled_between_their_levels")

Bad(s, e) ==
    CASE e.op \in {"Fail", "Crash"} -> {"no_exception"}
      [] e.op = "Error" -> If(e.kind # e.want, "rejected")
      [] e.exc # "" -> {"no_exception"}
      [] e.op = "Coarse" -> Coarse(e)
      [] e.op = "Levels" -> Levels(e)
      [] e.op = "Fine" -> Fine(e)
      [] e.op = "Filled" -> Filled(e)
      [] e.op = "Band" -> Band(e)
      [] e.op = "Equal" -> If(e.a # e.b, e.what)
      [] OTHER -> {"unknown_event"}
Post(s, e) == s
Trace == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH St0 <- 0
=============================================================================

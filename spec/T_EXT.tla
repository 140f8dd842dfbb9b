------------------------------- MODULE T_EXT -------------------------------
(* Verdict on recorded hulls, rectangles, circles and medians.               *)
EXTENDS Extremal, Json, IOUtils
VARIABLES l, st
If(c, name) == IF c THEN {name} ELSE {}
S(e) == Range(e.pts)

Hl(e) ==
    LET h == Hull(S(e))
    IN  If(Range(e.v) # Range(h) \/ Len(e.v) # Len(h), "exactly_the_extreme_points")
        \cup If(Range(e.v) = Range(h) /\ e.v # <<>> /\ Abs(Area2(e.v)) # Area2(h), "ring_order")
        \cup If(e.ccw /\ Area2(e.v) <= 0, "counter_clockwise")

(* corners: four rational points *)
Vec(a, b) == <<RSub(b[1], a[1]), RSub(b[2], a[2])>>
RDot(u, v) == RAdd(RMul(u[1], v[1]), RMul(u[2], v[2]))
RCross(u, v) == RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))
IPt(p) == <<RInt(p[1]), RInt(p[2])>>
Mrr(e) ==
    IF Len(e.v) # 4 \/ \E i \in 1..Len(e.v) : ~(IsNum(e.v[i][1]) /\ IsNum(e.v[i][2])) THEN {"four_corners"}
    ELSE
    LET c == e.v
        side(i) == Vec(c[i], c[Nxt(c, i)])
        area == RCross(side(1), side(2))
        sgn == IF RLeq(<<0, 1>>, area) THEN 1 ELSE -1
        u == side(1)
        \* side as an integer direction
        ui == <<u[1][1] * u[2][2], u[2][1] * u[1][2]>>
    IN  If(RDot(side(1), side(2)) # <<0, 1>> \/ side(3) # <<RNeg(side(1)[1]), RNeg(side(1)[2])>>, "rectangle")
        \cup If(\E p \in S(e) : \E i \in 1..4 :
                  LET x == RCross(side(i), Vec(c[i], IPt(p)))
                  IN  ~RLeq(<<0, 1>>, IF sgn = 1 THEN x ELSE RNeg(x)), "contains_all")
        \cup If((IF sgn = 1 THEN area ELSE RNeg(area)) # MinRectArea(S(e)), "smallest_area")
        \cup (IF e.angle
              THEN LET cr == ui[1] * e.sa - ui[2] * e.ca
                       dt == ui[1] * e.ca + ui[2] * e.sa
                       tol == 2 * (Abs(ui[1]) + Abs(ui[2]))
                   IN  If(~(Abs(cr) <= tol \/ Abs(dt) <= tol) \/ e.deg < 0 \/ e.deg > 90000, "reported_orientation")
              ELSE {})

Lcm(a, b) == (a \div Gcd(a, b)) * b
Mbc(e) ==
    IF ~(IsNum(e.cx) /\ IsNum(e.cy) /\ IsNum(e.r2)) THEN {"circle"}
    ELSE LET D == Lcm(e.cx[2], e.cy[2])
             X == e.cx[1] * (D \div e.cx[2])
             Y == e.cy[1] * (D \div e.cy[2])
         IN  If(~Covers(S(e), X, Y, D, e.r2), "contains_all")
             \cup If(Covers(S(e), X, Y, D, e.r2)
                     /\ ~InHullOf(<<X, Y>>, {<<p[1] * D, p[2] * D>> : p \in Touching(S(e), X, Y, D, e.r2)}),
                     "smallest")

(* General position: centre and radius in tenths.  The circle must cover all *)
(* points and be held by two opposite points or a non-obtuse triangle.       *)
MbcF(e) ==
    LET P == {<<10 * p[1], 10 * p[2]>> : p \in S(e)}
        c == <<e.cx, e.cy>>
        tol == 4 * e.r + 20
        on == {p \in P : Abs(Dist2(p, c) - e.r * e.r) <= tol}
    IN  If(\E p \in P : Dist2(p, c) > e.r * e.r + tol, "contains_all")
        \cup If(~\/ \E a, b \in on : Abs(Dist2(a, b) - 4 * e.r * e.r) <= 4 * tol
                 \/ \E a, b, d \in on : /\ a # b /\ b # d /\ a # d
                                        /\ Dot(a, b, d) >= -tol /\ Dot(b, a, d) >= -tol /\ Dot(d, a, b) >= -tol,
                "smallest")

(* Euclidean median: observed location in hundredths; rel: displacement of   *)
(* every point from it in 1/3000.                                           *)
Root16(x) == ISqrt(256 * x)        \* 16 * sqrt(x)
Tot(q, pts) == SumSeq([i \in 1..Len(pts) |-> Root16(Dist2(q, <<100 * pts[i][1], 100 * pts[i][2]>>))])
Far(v) == v[1] * v[1] + v[2] * v[2] > 500 * 500
Unit(v) == LET n == ISqrt(v[1] * v[1] + v[2] * v[2]) IN <<(1000 * v[1]) \div n, (1000 * v[2]) \div n>>
Small(v) == <<v[1] \div 10, v[2] \div 10>>
Med(e) ==
    LET n == Len(e.pts)
        near == Cardinality({i \in 1..n : ~Far(e.rel[i])})
        us == [i \in 1..n |-> IF Far(e.rel[i]) THEN Unit(e.rel[i]) ELSE <<0, 0>>]
        gx == SumSeq([i \in 1..n |-> us[i][1]])
        gy == SumSeq([i \in 1..n |-> us[i][2]])
        b == BBox(S(e))
        mine == Tot(<<e.x, e.y>>, e.pts)
    IN  If(ISqrt(gx * gx + gy * gy) > 1000 * near + 6 * n, "first_order_optimal")
        \cup If(\E x \in (2 * b[1])..(2 * b[3]), y \in (2 * b[2])..(2 * b[4]) :
                   Tot(<<50 * x, 50 * y>>, e.pts) + 20 * n < mine, "no_better_location")

Bad(s, e) ==
    CASE e.op \in {"Fail", "Crash"} -> {"no_exception"}
      [] e.exc # "" -> {"no_exception"}
      [] e.op = "Hull" -> Hl(e)
      [] e.op = "Mrr" -> Mrr(e)
      [] e.op = "Mbc" -> Mbc(e)
      [] e.op = "MbcF" -> MbcF(e)
      [] e.op = "Med" -> Med(e)
      [] OTHER -> {"unknown_event"}
Post(s, e) == s
Trace == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH St0 <- 0
=============================================================================

------------------------------- MODULE T_CEN -------------------------------
(* Verdict on recorded centrography results.                                 *)
EXTENDS Centro, Json, IOUtils
VARIABLES l, st
If(c, name) == IF c THEN {name} ELSE {}

SumRoots(q, p, s) == SumSeq([i \in 1..Len(p) |-> ISqrt(Dist2(q, p[i]) * s * s)])

Good(e) ==
    CASE e.fn = "mean_center" -> e.v = Mean(e.pts)
      [] e.fn = "weighted_mean_center" -> e.v = WMeanC(e.pts, e.w)
      [] e.fn = "manhattan_median" -> e.v = ManMedian(e.pts)
      [] e.fn = "std_distance" -> e.v = StdDist2(e.pts)
      [] e.fn = "minimum_bounding_rectangle" -> e.v = BBox(Range(e.pts))
      [] e.fn = "dtot" -> LET s == SumRoots(e.at, e.pts, 500)
                          IN  e.v >= s - 1 /\ e.v <= s + Len(e.pts) + 1
      [] e.fn = "same" -> e.v = TRUE
      [] OTHER -> FALSE

Ell(e) ==
    \* every point is there e.m times
    LET k == Corr2(e.method, e.cc, e.df, e.m * Len(e.pts))
        c == Rat(k[1], k[2])
    IN  If(e.trace # EllTrace(e.pts, e.w, c), "axes_sum_of_squares")
        \cup If(LET d == EllDet(e.pts, e.w, c) IN Abs(e.det - d) > d \div 10000000, "axes_product")
        \cup If(e.major < e.minor, "major_axis_first")
        \cup If(~EllAngle(e.pts, e.w, e.c2, e.s2), "rotation_of_major_axis")
        \cup If(e.centre # <<>> /\ e.centre # WMeanC(e.pts, e.w), "polygon_centre")

Bad(s, e) ==
    CASE e.op \in {"Fail", "Crash"} -> {"no_exception"}
      [] e.op = "Error" -> If(e.kind # e.want, "rejected_with_" \o e.want)
      [] e.exc # "" -> {"no_exception"}
      [] e.op = "Cen" -> If(~Good(e), e.fn)
      [] e.op = "Ell" -> Ell(e)
      [] OTHER -> {"unknown_event"}
Post(s, e) == s
Trace == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH St0 <- 0
=============================================================================

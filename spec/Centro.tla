------------------------------- MODULE Centro -------------------------------
(* Definitions of centrographic measures over weighted lattice points.       *)
(* p: sequence of points, w: sequence of weights (non-negative, sum > 0).    *)
EXTENDS Geo

Xs(p) == [i \in 1..Len(p) |-> p[i][1]]
Ys(p) == [i \in 1..Len(p) |-> p[i][2]]
Ones(p) == [i \in 1..Len(p) |-> 1]
WSum(w, v) == SumSeq([i \in 1..Len(v) |-> w[i] * v[i]])
WMean(w, v) == Rat(WSum(w, v), SumSeq(w))
Mean(p) == <<WMean(Ones(p), Xs(p)), WMean(Ones(p), Ys(p))>>
WMeanC(p, w) == <<WMean(w, Xs(p)), WMean(w, Ys(p))>>

Median(v) == LET s == SortInts(v) n == Len(v)
             IN  IF n % 2 = 1 THEN RInt(s[(n + 1) \div 2])
                 ELSE Rat(s[n \div 2] + s[n \div 2 + 1], 2)
ManMedian(p) == <<Median(Xs(p)), Median(Ys(p))>>

\* W^2 times the (co)variance: W * sum(w u v) - sum(w u) * sum(w v)
Mom(w, u, v) == SumSeq(w) * SumSeq([i \in 1..Len(u) |-> w[i] * u[i] * v[i]])
                - WSum(w, u) * WSum(w, v)
MXX(p, w) == Mom(w, Xs(p), Xs(p))
MYY(p, w) == Mom(w, Ys(p), Ys(p))
MXY(p, w) == Mom(w, Xs(p), Ys(p))

\* squared standard distance
StdDist2(p) == Rat(MXX(p, Ones(p)) + MYY(p, Ones(p)), Len(p) * Len(p))

(* Standard deviational ellipse. Semi axes are the square roots of the       *)
(* eigenvalues of the second moment matrix, times a correction.              *)
\* correction factor, squared, as <<numerator, denominator>>
Corr2(method, cc, df, n) ==
    IF method = "crimestat" THEN <<2 * n, n - 2>>
    ELSE <<(IF cc THEN 2 ELSE 1) * (IF df THEN n ELSE 1), IF df THEN n - 2 ELSE 1>>
\* major^2 + minor^2
EllTrace(p, w, c) == Rat((MXX(p, w) + MYY(p, w)) * c[1], SumSeq(w) * SumSeq(w) * c[2])
\* major^2 * minor^2 * W^4 * c[2]^2, an integer
EllDet(p, w, c) == (MXX(p, w) * MYY(p, w) - MXY(p, w) * MXY(p, w)) * c[1] * c[1]
\* direction (cos 2t, sin 2t) * 10^6 of the major axis, up to rounding
EllAngle(p, w, c2, s2) ==
    LET a == MXX(p, w) - MYY(p, w)
        b == 2 * MXY(p, w)
    IN  \/ a = 0 /\ b = 0
        \/ /\ Abs(c2 * b - s2 * a) <= 50 * (Abs(a) + Abs(b))
           /\ c2 * a + s2 * b > 0

(* Laws, checked exhaustively on small inputs ------------------------------- *)
Manhattan(q, p) == SumSeq([i \in 1..Len(p) |-> Abs(p[i][1] - q[1]) + Abs(p[i][2] - q[2])])
=============================================================================

----------------------------- MODULE CentroLaws -----------------------------
(* The definitions of Centro obey the laws users rely on; the accumulation   *)
(* of a centre point by point (insertion order = history) does not depend on *)
(* the order.  Completed samples are emitted as scenarios.                   *)
EXTENDS Centro, Json
CONSTANTS NMax, G, WMax
VARIABLES p, w, sx, sy, sw
vars == <<p, w, sx, sy, sw>>
Init == p = <<>> /\ w = <<>> /\ sx = 0 /\ sy = 0 /\ sw = 0
Add == /\ Len(p) < NMax
       /\ \E x \in 0..G, y \in 0..1, k \in 1..WMax :
            /\ p' = Append(p, <<x, y>>) /\ w' = Append(w, k)
            /\ sx' = sx + k * x /\ sy' = sy + k * y /\ sw' = sw + k
            /\ (Len(p') >= 2 /\ (x + y + k) % 2 = 0) => PrintT("SCN " \o ToJson([p |-> p', w |-> w']))
Spec == Init /\ [][Add]_vars

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Shift(s, d) == [i \in 1..Len(s) |-> <<s[i][1] + d, s[i][2] - d>>]
N == Len(p)
Accumulated == N > 0 => WMeanC(p, w) = <<Rat(sx, sw), Rat(sy, sw)>>
OrderFree == N > 0 => /\ WMeanC(Rev(p), Rev(w)) = WMeanC(p, w)
                      /\ ManMedian(Rev(p)) = ManMedian(p)
                      /\ StdDist2(Rev(p)) = StdDist2(p)
Equivariant == N > 0 =>
    LET s == Shift(p, 3)
    IN  /\ Mean(s) = <<RAdd(Mean(p)[1], RInt(3)), RSub(Mean(p)[2], RInt(3))>>
        /\ ManMedian(s) = <<RAdd(ManMedian(p)[1], RInt(3)), RSub(ManMedian(p)[2], RInt(3))>>
        /\ StdDist2(s) = StdDist2(p)
        /\ MXY(s, w) = MXY(p, w)
WeightsAreMultiplicities == N > 0 =>   \* weight 2 is the point listed twice
    LET p2 == p \o <<p[1]>>
        w2 == [w EXCEPT ![1] = 2 * w[1]]
    IN  WMeanC(p2, w \o <<w[1]>>) = WMeanC(p, w2)
MedianMinimises == (N > 0 /\ N % 2 = 1) =>
    \A x \in 0..G, y \in 0..1 :
       Manhattan(<<ManMedian(p)[1][1], ManMedian(p)[2][1]>>, p) <= Manhattan(<<x, y>>, p)
Psd == N > 0 => MXX(p, w) * MYY(p, w) >= MXY(p, w) * MXY(p, w)
=============================================================================

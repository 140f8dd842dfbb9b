------------------------------ MODULE Density ------------------------------
(* Kernel densities of point sets over the plane, in fixed point: the value at   *)
(* p of the density of n points with bandwidth h, times n h^2 pi, in units of    *)
(* 1/10000.  Lengths are integers in 1/U of a lattice unit.                      *)
EXTENDS Geo
U == 200
S == 10000
\* exp(-j/16), j = 0..160
ExpTab == <<10000, 9394, 8825, 8290, 7788, 7316, 6873, 6456, 6065, 5698, 5353, 5028, 4724, 4437, 4169, 3916, 3679, 3456, 3247, 3050,
    2865, 2691, 2528, 2375, 2231, 2096, 1969, 1850, 1738, 1632, 1534, 1441, 1353, 1271, 1194, 1122, 1054, 990, 930, 874,
    821, 771, 724, 681, 639, 601, 564, 530, 498, 468, 439, 413, 388, 364, 342, 321, 302, 284, 266, 250,
    235, 221, 208, 195, 183, 172, 162, 152, 143, 134, 126, 118, 111, 104, 98, 92, 87, 81, 76, 72,
    67, 63, 59, 56, 52, 49, 46, 44, 41, 38, 36, 34, 32, 30, 28, 26, 25, 23, 22, 21,
    19, 18, 17, 16, 15, 14, 13, 12, 12, 11, 10, 10, 9, 9, 8, 8, 7, 7, 6, 6,
    6, 5, 5, 5, 4, 4, 4, 4, 3, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2,
    2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0,
    0>>
Lerp(a, b, f) == a + ((b - a) * f) \div 1000
\* exp(-x/1000)
Exp(x) == LET j == (x * 16) \div 1000
              f == (x * 16) % 1000
          IN  IF j >= 160 THEN 0 ELSE Lerp(ExpTab[j + 1], ExpTab[j + 2], f)
\* the kernels, as a function of q = 1000 (distance / bandwidth)^2; all have unit
\* variance (per direction of the plane for the first, on the line for the others)
Pow(x, k) == IF k = 1 THEN x ELSE IF k = 2 THEN (x * x) \div S ELSE (((x * x) \div S) * x) \div S
Comp(q, c, k) == IF q >= 1000 * c THEN 0 ELSE Pow(S - (q * 10) \div c, k)
Kern(name, q) ==
    CASE name = "gaussian" -> Exp(q \div 2) \div 2
      [] name = "epa" -> (Comp(q, 5, 1) * 2) \div 5
      [] name = "biweight" -> (Comp(q, 7, 2) * 3) \div 7
      [] name = "triweight" -> (Comp(q, 9, 3) * 4) \div 9
      [] name = "tri" -> IF q >= 6000 THEN 0 ELSE (S - (ISqrt((q * 10000) \div 6) * 10000) \div 3162) \div 2
\* h = <<hn, hd>> in lattice units, p in 1/U of a lattice unit, pts in lattice units
Q2(p, a, h) == LET dx == Abs(p[1] - U * a[1])  dy == Abs(p[2] - U * a[2])
                   big == (20 * U * h[1]) \div h[2]
               IN  IF dx > big \/ dy > big \/ dx > 20000 \/ dy > 20000 THEN 1000000
                   ELSE LET d2 == dx * dx + dy * dy
                            n == h[1] * h[1] * ((U * U) \div 1000)
                        IN  ((d2 \div n) * h[2] * h[2]) + (((d2 % n) * h[2] * h[2]) \div n)
Dens(pts, h, name, p) == SumSeq([i \in 1..Len(pts) |-> Kern(name, Q2(p, pts[i], h))])
\* level L of the density, given as fixed point of 10000 L n h^2
Level(x) == (x * 355) \div 113
=============================================================================

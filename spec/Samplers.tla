------------------------------ MODULE Samplers ------------------------------
(* How many points, how many replications, which shape; groups of clusters.   *)
EXTENDS Region

(* requests: size is [k |-> "none"], [k |-> "int", n |-> .], [k |-> "pair",
   n |-> ., r |-> .] or [k |-> "bad"]; inten is a rational or <<>>; a2 is twice
   the area of the hull.                                                      *)
CountOf(inten, a2) == (inten[1] * a2) \div (2 * inten[2])
Parse(size, inten, a2) ==
    CASE size.k = "bad" -> <<>>
      [] size.k = "none" /\ inten = <<>> -> <<100, 1>>
      [] size.k = "none" -> <<CountOf(inten, a2), 1>>
      [] size.k = "pair" /\ inten # <<>> -> <<>>
      [] size.k = "pair" -> <<size.n, size.r>>
      [] size.k = "int" /\ inten # <<>> -> <<CountOf(inten, a2), size.n>>
      [] size.k = "int" -> <<size.n, 1>>
ShapeOf(nr) == IF nr[2] = 1 THEN <<nr[1], 2>> ELSE <<nr[2], nr[1], 2>>

\* sizes of k near-equal consecutive groups of n points
SplitSizes(n, k) == [i \in 1..k |-> n \div k + (IF i <= n % k THEN 1 ELSE 0)]
GroupStart(n, k, i) == SumSeq(SubSeq(SplitSizes(n, k), 1, i - 1))

(* hulls ------------------------------------------------------------------- *)
HullReg(h) == CASE h.form \in {"bbox", "points"} -> BoxReg(BBox(Vertices(h.parts)))
                [] h.form = "hullobj" -> <<<<Hull(Vertices(h.parts))>>>>
                [] OTHER -> h.parts
=============================================================================

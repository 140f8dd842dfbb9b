------------------------------ MODULE Extremal ------------------------------
(* Exact extremal geometry of lattice point sets.                            *)
EXTENDS Geo

(* Hull, declaratively: extreme points are those no segment or triangle of   *)
(* other points covers.                                                      *)
IsExtreme(p, S) ==
    /\ p \in S
    /\ ~\E a, b \in S \ {p} : OnSeg(p, a, b)
    /\ ~\E a, b, c \in S \ {p} : /\ Cross(a, b, c) > 0
                                 /\ Cross(a, b, p) >= 0 /\ Cross(b, c, p) >= 0 /\ Cross(c, a, p) >= 0

(* Rectangles.  Along direction u the bounding rectangle of S has area       *)
(* (extent of dot products) * (extent of cross products) / |u|^2.            *)
Ext(V) == MaxSet(V) - MinSet(V)
AreaAlong(S, u) == Rat(Ext({p[1] * u[1] + p[2] * u[2] : p \in S})
                       * Ext({p[2] * u[1] - p[1] * u[2] : p \in S}),
                       u[1] * u[1] + u[2] * u[2])
EdgeDirs(S) == LET h == Hull(S) IN
               {<<h[Nxt(h, i)][1] - h[i][1], h[Nxt(h, i)][2] - h[i][2]>> : i \in 1..Len(h)}
MinRat(R) == CHOOSE x \in R : \A y \in R : RLeq(x, y)
MinRectArea(S) == MinRat({AreaAlong(S, u) : u \in EdgeDirs(S)})

(* Circles: centre <<X, Y>>/D, squared radius <<n, d>>.                       *)
ScD2(p, X, Y, D) == (p[1] * D - X) * (p[1] * D - X) + (p[2] * D - Y) * (p[2] * D - Y)
Covers(S, X, Y, D, r2) == \A p \in S : ScD2(p, X, Y, D) * r2[2] <= r2[1] * D * D
Touching(S, X, Y, D, r2) == {p \in S : ScD2(p, X, Y, D) * r2[2] = r2[1] * D * D}
InHullOf(c, S) == LET h == Hull(S) IN
    CASE Len(h) = 0 -> FALSE
      [] Len(h) = 1 -> c = h[1]
      [] Len(h) = 2 -> OnSeg(c, h[1], h[2])
      [] OTHER -> InConvex(c, h)
\* a covering circle is the smallest one iff its centre is in the hull of the points it touches
IsMBC(S, X, Y, D, r2) ==
    /\ Covers(S, X, Y, D, r2)
    /\ InHullOf(<<X, Y>>, {<<p[1] * D, p[2] * D>> : p \in Touching(S, X, Y, D, r2)})
=============================================================================

-------------------------------- MODULE Geo --------------------------------
(* Planar geometry over the integer lattice.  Points are <<x, y>>.           *)
EXTENDS Num, SequencesExt, TLC

Dist2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
Cross(o, a, b) == (a[1] - o[1]) * (b[2] - o[2]) - (a[2] - o[2]) * (b[1] - o[1])
Dot(o, a, b) == (a[1] - o[1]) * (b[1] - o[1]) + (a[2] - o[2]) * (b[2] - o[2])
Lex(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])

LexSorted(S) == SetToSortSeq(S, Lex)

(* monotone chain ---------------------------------------------------------- *)
RECURSIVE Pop(_, _)
Pop(stack, p) == IF Len(stack) >= 2 /\ Cross(stack[Len(stack) - 1], stack[Len(stack)], p) <= 0
                 THEN Pop(SubSeq(stack, 1, Len(stack) - 1), p)
                 ELSE stack
RECURSIVE Chain(_, _)
Chain(stack, rest) == IF rest = <<>> THEN stack
                      ELSE Chain(Append(Pop(stack, Head(rest)), Head(rest)), Tail(rest))
\* counter-clockwise ring of the extreme points (no collinear points); for
\* collinear sets the two end points, for a single point that point.
Hull(S) == IF Cardinality(S) <= 1 THEN LexSorted(S)
           ELSE LET s == LexSorted(S)
                    lo == Chain(<<>>, s)
                    up == Chain(<<>>, Reverse(s))
                IN  SubSeq(lo, 1, Len(lo) - 1) \o SubSeq(up, 1, Len(up) - 1)

Nxt(ring, i) == IF i = Len(ring) THEN 1 ELSE i + 1
\* twice the signed area of a ring
Area2(ring) == SumOver(LAMBDA i : ring[i][1] * ring[Nxt(ring, i)][2]
                                  - ring[Nxt(ring, i)][1] * ring[i][2], Len(ring))
Collinear(S) == Len(Hull(S)) < 3

\* p on the closed segment ab
OnSeg(p, a, b) == /\ Cross(a, b, p) = 0
                  /\ Min2(a[1], b[1]) <= p[1] /\ p[1] <= Max2(a[1], b[1])
                  /\ Min2(a[2], b[2]) <= p[2] /\ p[2] <= Max2(a[2], b[2])
\* closed convex counter-clockwise ring
InConvex(p, ring) == \A i \in 1..Len(ring) : Cross(ring[i], ring[Nxt(ring, i)], p) >= 0
OnRing(p, ring) == \E i \in 1..Len(ring) : OnSeg(p, ring[i], ring[Nxt(ring, i)])
\* even-odd rule, p not on the ring
RECURSIVE CrossCount(_, _, _)
CrossCount(p, ring, i) ==
    IF i > Len(ring) THEN 0
    ELSE LET a == ring[i]
             b == ring[Nxt(ring, i)]
             s == (a[2] > p[2]) # (b[2] > p[2])
             \* the edge crosses the horizontal line through p to the right of p
             r == IF b[2] > a[2] THEN Cross(a, b, p) > 0 ELSE Cross(a, b, p) < 0
         IN  (IF s /\ r THEN 1 ELSE 0) + CrossCount(p, ring, i + 1)
InRing(p, ring) == OnRing(p, ring) \/ CrossCount(p, ring, 1) % 2 = 1
InRingOpen(p, ring) == ~OnRing(p, ring) /\ CrossCount(p, ring, 1) % 2 = 1

BBox(S) == <<MinSet({p[1] : p \in S}), MinSet({p[2] : p \in S}),
             MaxSet({p[1] : p \in S}), MaxSet({p[2] : p \in S})>>
=============================================================================

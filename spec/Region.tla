------------------------------- MODULE Region -------------------------------
(* Polygonal regions over the integer lattice: a sequence of parts, each a     *)
(* sequence of rings <<shell, hole, ...>>; a ring is a sequence of distinct    *)
(* vertices (either orientation, not closed).                                  *)
EXTENDS Geo

RingArea2(r) == Abs(Area2(r))
PartArea2(p) == RingArea2(p[1]) - SumSeq([i \in 1..(Len(p) - 1) |-> RingArea2(p[i + 1])])
RegArea2(R) == SumSeq([i \in 1..Len(R) |-> PartArea2(R[i])])

InPart(q, p) == InRing(q, p[1]) /\ \A i \in 2..Len(p) : ~InRingOpen(q, p[i])
InPartOpen(q, p) == InRingOpen(q, p[1]) /\ \A i \in 2..Len(p) : ~InRing(q, p[i])
InReg(q, R) == \E i \in 1..Len(R) : InPart(q, R[i])
InRegOpen(q, R) == \E i \in 1..Len(R) : InPartOpen(q, R[i])

Vertices(R) == UNION {UNION {Range(R[i][k]) : k \in 1..Len(R[i])} : i \in 1..Len(R)}
RegBBox(R) == BBox(Vertices(R))

\* first moments: 6 A C of a ring, sign made positive
RingMoment(r, c) == LET m == SumOver(LAMBDA i : (r[i][c] + r[Nxt(r, i)][c]) *
                                        (r[i][1] * r[Nxt(r, i)][2] - r[Nxt(r, i)][1] * r[i][2]), Len(r))
                    IN  IF Area2(r) < 0 THEN -m ELSE m
PartMoment(p, c) == RingMoment(p[1], c) - SumSeq([i \in 1..(Len(p) - 1) |-> RingMoment(p[i + 1], c)])
RegCentroid(R) == LET a == RegArea2(R)
                      m(c) == SumSeq([i \in 1..Len(R) |-> PartMoment(R[i], c)])
                  IN  <<Rat(m(1), 3 * a), Rat(m(2), 3 * a)>>

ScaleReg(R, k) == [i \in 1..Len(R) |-> [j \in 1..Len(R[i]) |-> [v \in 1..Len(R[i][j]) |-> <<k * R[i][j][v][1], k * R[i][j][v][2]>>]]]
\* p within about two units of R (p and R on a fine lattice)
NearReg(p, R) == \/ InReg(p, R)
                 \/ \E dx \in {-2, 0, 2}, dy \in {-2, 0, 2} : InReg(<<p[1] + dx, p[2] + dy>>, R)
BoxReg(b) == <<<<<<<<b[1], b[2]>>, <<b[3], b[2]>>, <<b[3], b[4]>>, <<b[1], b[4]>>>>>>>>
=============================================================================

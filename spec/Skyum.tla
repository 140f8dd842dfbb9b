------------------------------- MODULE Skyum -------------------------------
(* Skyum's iteration for the minimum bounding circle on a convex ring:       *)
(* take the vertex whose circle through its two neighbours is largest (the   *)
(* largest angle among equal circles); if its angle is not obtuse, that is   *)
(* the circle, else drop the vertex and repeat.                              *)
(* TieBreak = FALSE drops the rule for ties; then any vertex of maximal      *)
(* radius may be taken - the design then fails on cocircular points.         *)
EXTENDS Extremal, Json

CONSTANTS GX, GY, NMax, TieBreak, Emitting

VARIABLES S, ring, res
vars == <<S, ring, res>>

Grid == (0..GX) \X (0..GY)
Prv(r, i) == IF i = 1 THEN Len(r) ELSE i - 1

Init == /\ S \in {X \in SUBSET Grid : Cardinality(X) \in 3..NMax /\ ~Collinear(X)}
        /\ ring = Reverse(Hull(S))
        /\ res = <<>>
        /\ Emitting => PrintT("SCN " \o ToJson(LexSorted(S)))

P(i) == ring[Prv(ring, i)]
Q(i) == ring[i]
R(i) == ring[Nxt(ring, i)]
Dt(i) == Dot(Q(i), P(i), R(i))
Cr(i) == Cross(Q(i), P(i), R(i))
\* squared radius of the circle through the three points (half the distance if flat)
Rad2(i) == IF Cr(i) = 0
           THEN Rat(IF Dt(i) < 0 THEN Dist2(P(i), R(i)) ELSE Dist2(P(i), Q(i)), 4)
           ELSE RMul(Rat(Dist2(P(i), Q(i)) * Dist2(Q(i), R(i)), 4 * Cr(i) * Cr(i)),
                     RInt(Dist2(P(i), R(i))))
\* cos(angle) * |cos(angle)|: larger angle <=> smaller value
SgnCos2(i) == IF Dt(i) = 0 THEN <<0, 1>>
              ELSE LET c == Rat(Dt(i) * Dt(i), Dist2(P(i), Q(i)) * Dist2(R(i), Q(i)))
                   IN  IF Dt(i) > 0 THEN c ELSE RNeg(c)
Candidates ==
    LET big == {i \in 1..Len(ring) : \A j \in 1..Len(ring) : RLeq(Rad2(j), Rad2(i))}
    IN  IF TieBreak THEN {i \in big : \A j \in big : RLeq(SgnCos2(i), SgnCos2(j))} ELSE big

Circle(i) == \* centre <<X, Y>>/D
    IF Cr(i) = 0
    THEN LET a == P(i) b == IF Dt(i) < 0 THEN R(i) ELSE Q(i)
         IN  <<a[1] + b[1], a[2] + b[2], 2>>
    ELSE LET a == P(i) b == Q(i) c == R(i)
             D == 2 * Cross(a, b, c)
             n1 == a[1] * a[1] + a[2] * a[2]
             n2 == b[1] * b[1] + b[2] * b[2]
             n3 == c[1] * c[1] + c[2] * c[2]
             X == n1 * (b[2] - c[2]) + n2 * (c[2] - a[2]) + n3 * (a[2] - b[2])
             Y == n1 * (c[1] - b[1]) + n2 * (a[1] - c[1]) + n3 * (b[1] - a[1])
             s == IF D < 0 THEN -1 ELSE 1
         IN  <<s * X, s * Y, s * D>>

Step == /\ res = <<>>
        /\ \E i \in Candidates :
             IF Dt(i) >= 0
             THEN res' = <<Circle(i), Rad2(i)>> /\ UNCHANGED <<S, ring>>
             ELSE /\ ring' = SubSeq(ring, 1, i - 1) \o SubSeq(ring, i + 1, Len(ring))
                  /\ UNCHANGED <<S, res>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

Minimal == res # <<>> => IsMBC(S, res[1][1], res[1][2], res[1][3], res[2])
NeverEmpty == Len(ring) >= 2
Terminates == <>(res # <<>>)

\* the other constructions, checked on the same sets
HullIsExtreme == Range(Hull(S)) = {p \in S : IsExtreme(p, S)}
RectLaw == \A u \in {<<a, b>> \in (-3..3) \X (0..3) : a # 0 \/ b # 0} :
              RLeq(MinRectArea(S), AreaAlong(S, u))
=============================================================================

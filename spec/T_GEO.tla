------------------------------- MODULE T_GEO -------------------------------
(* Verdict on recorded areas, boxes, centroids, memberships, hulls, windows.    *)
(* Shapes are regions over the lattice; query points are on the half lattice    *)
(* (recorded doubled) and, where a boundary belongs to a shape or not by        *)
(* convention, judged only off the boundary.                                    *)
EXTENDS Region, Json, IOUtils
VARIABLES l, st
If(c, name) == IF c THEN {name} ELSE {}

Wrong(e, R) == \E q \in Range(e.q) : LET p == <<q[1], q[2]>>
                                         inn == InReg(p, R)
                                         off == inn = InRegOpen(p, R)
                                     IN  (off \/ e.closed) /\ (q[3] = 1) # inn
Measures(e, R, cen) ==
    If(e.hasarea /\ ~REq(e.area, Rat(RegArea2(R), 2)), "area")
    \cup If(e.box # RegBBox(R), "bounding_box")
    \cup If(e.hascen /\ e.cen # cen, "centroid")
    \cup If(Wrong(e, ScaleReg(R, 2)), "contains_exactly_its_points")
MeanOf(S) == LET q == SetToSeq(S) IN <<Rat(SumSeq([i \in 1..Len(q) |-> q[i][1]]), Len(q)), Rat(SumSeq([i \in 1..Len(q) |-> q[i][2]]), Len(q))>>
MeanSeq(q) == <<Rat(SumSeq([i \in 1..Len(q) |-> q[i][1]]), Len(q)), Rat(SumSeq([i \in 1..Len(q) |-> q[i][2]]), Len(q))>>
Shape(e) == Measures(e, e.reg, RegCentroid(e.reg))
\* convex hull of points: its centroid is the mean of its vertices
HullOf(e) == LET h == Hull(Range(e.pts)) IN Measures(e, <<<<h>>>>, MeanOf(Range(h)))
\* the bounding box of points, their mean centre
Points(e) == If(e.box # BBox(Range(e.pts)), "bounding_box") \cup If(e.hascen /\ e.cen # MeanSeq(e.pts), "centroid")

(* a prepared hull, by name ---------------------------------------------------- *)
SameRing(a, b) == Len(a) = Len(b) /\ Range(a) = Range(b)
Prep(e) ==
    LET S == Range(e.pts) IN
    (CASE e.name = "bbox" -> If(e.form # "box" \/ e.box # BBox(S), "hull_of_the_requested_kind")
       [] e.name = "convex" -> If(e.form # "hull" \/ Range(e.ring) # Range(Hull(S)) \/ Len(e.ring) # Len(Hull(S)), "hull_of_the_requested_kind")
       [] e.name = "alpha" -> If(e.form # "poly" \/ ~(Vertices(e.reg) \subseteq S), "hull_of_the_requested_kind"))
    \cup (LET R == CASE e.form = "box" -> BoxReg(e.box) [] e.form = "hull" -> <<<<Hull(Range(e.ring))>>>> [] OTHER -> e.reg
          IN  If(\E p \in S : ~InReg(p, R), "contains_the_points_it_was_built_from"))

(* windows ------------------------------------------------------------------------- *)
\* e.pts doubled half-lattice points, e.kept likewise
Filter(e) == LET R == ScaleReg(e.reg, 2)
                 Sure == SelectSeq(e.pts, LAMBDA p : InReg(p, R) = InRegOpen(p, R))
                 Edge(p) == InReg(p, R) # InRegOpen(p, R)
             IN  If(SelectSeq(e.kept, LAMBDA p : ~Edge(p)) # SelectSeq(Sure, LAMBDA p : InReg(p, R)), "keeps_exactly_the_points_inside_in_order")
                 \cup If(~e.same, "arguments_unchanged")
Close(e) == If(e.got # (IF e.ring[1] = e.ring[Len(e.ring)] THEN e.ring ELSE Append(e.ring, e.ring[1])), "closes_only_open_rings")

Bad(s, e) ==
    CASE e.op \in {"Fail", "Crash"} -> {"no_exception"}
      [] e.op = "Error" -> If(e.kind = "", "rejected")
      [] e.exc # "" -> {"no_exception"}
      [] e.op = "Shape" -> Shape(e)
      [] e.op = "HullOf" -> HullOf(e)
      [] e.op = "Points" -> Points(e)
      [] e.op = "Prep" -> Prep(e)
      [] e.op = "Filter" -> Filter(e)
      [] e.op = "Close" -> Close(e)
      [] e.op = "Equal" -> If(e.a # e.b, e.what)
      [] OTHER -> {"unknown_event"}
Post(s, e) == s
Trace == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH St0 <- 0
=============================================================================

-------------------------------- MODULE T_PP --------------------------------
(* Verdict on recorded sessions with PointPattern objects.                   *)
(* After every call the driver records the public projection of every live   *)
(* object (e.heap).  The abstract state is the projection seen last, so one  *)
(* wrong result does not make later, correct results look wrong.             *)
EXTENDS PP, Json, IOUtils

CONSTANT Groups   \* which families of clauses to judge: "algebra", "coherence"
VARIABLES l, st

NewObj(e) == Len(e.heap)
Obs(e, o) == e.heap[o]
Same(p, h) == p.cols = h.cols /\ p.rows = h.rows /\ p.cx = h.cx /\ p.cy = h.cy /\ p.win = h.win

Created(s, e) ==       \* the values of the objects this call creates
    CASE e.op = "New" -> <<NewPat(e.rows, e.names, e.coords, e.win)>>
      [] e.op = "Unique" -> <<Unique(s[e.o])>>
      [] e.op = "Super" /\ Compatible(s[e.o], s[e.q]) -> <<Superimpose(s[e.o], s[e.q])>>
      [] e.op = "Explode" -> Explode(s[e.o], e.col)
      [] OTHER -> <<>>
Changed(s, e) ==       \* the value of the object this call is applied to
    CASE e.op = "Mark" -> AddMarks(s[e.o], e.names, e.vals)
      [] e.op = "SetWin" -> [s[e.o] EXCEPT !.win = e.win]
      [] e.op = "DropWin" -> [s[e.o] EXCEPT !.win = RectWin(MBB(s[e.o]))]
Mutators == {"Mark", "SetWin", "DropWin"}

Expect(s, e) == LET s1 == IF e.op \in Mutators THEN [s EXCEPT ![e.o] = Changed(s, e)] ELSE s
                IN  s1 \o Created(s, e)

If(c, name) == IF c THEN {name} ELSE {}

Algebra(s, e) ==
    LET x == Expect(s, e)
        incompat == e.op = "Super" /\ ~Compatible(s[e.o], s[e.q])
    IN  If(~incompat /\ e.exc # "", "no_exception")
        \cup If(incompat /\ ~e.typeerror, "incompatible_patterns_rejected")
        \cup If(e.exc = "" /\ Len(e.heap) # Len(x), "number_of_patterns")
        \cup (IF e.op = "Has" THEN If(e.ans # Member(s[e.o], e.pt), "membership") ELSE {})
        \cup UNION {LET h == e.heap[o] p == x[o] IN
                      If(h.cols # p.cols, "columns") \cup If(h.rows # p.rows, "rows")
                      \cup If(<<h.cx, h.cy>> # <<p.cx, p.cy>>, "coordinate_names")
                      \cup If(h.win # p.win, "window")
                    : o \in {k \in 1..Min2(Len(x), Len(e.heap)) :
                               k > Len(s) \/ (e.op \in Mutators /\ k = e.o)}}

(* derived attributes: v is the recorded value, coordinates in lattice units *)
Sorted2(s) == SortInts(s)
SumRoots(p) == SumSeq([i \in 1..N(p) |-> ISqrt(NND2(p, i) * 1000000)])
ReadOK(p, a, v) ==
    CASE a = "n" -> v = N(p)
      [] a = "len" -> v = N(p)
      [] a = "mbb" -> v = MBB(p)
      [] a = "mbb_area" -> v = RInt(MBBArea(p))
      [] a = "rot" -> v = Rot(p)
      [] a = "lambda_mbb" -> v = Over(N(p), RInt(MBBArea(p)))
      [] a = "lambda_window" -> v = Over(N(p), WinArea(p))
      [] a = "lambda_hull" -> v = Over(N(p), HullArea(p))
      [] a = "hull_area" -> v = HullArea(p)
      [] a = "hull" -> /\ Area2(v) = Area2(Hull(PtSet(p)))
                       /\ {v[i] : i \in 1..Len(v)} \subseteq PtSet(p)
                       /\ Range(Hull(PtSet(p))) \subseteq Range(v)
      [] a = "nnd" -> v = [i \in 1..N(p) |-> NND2(p, i)]
      [] a = "min_nnd" -> v = MinSet({NND2(p, i) : i \in 1..N(p)})
      [] a = "max_nnd" -> v = MaxSet({NND2(p, i) : i \in 1..N(p)})
      [] a = "mean_nnd" -> LET sr == SumRoots(p) IN  \* v * 1000
              v * N(p) >= sr - 2 * N(p) /\ v * N(p) <= sr + 2 * N(p)
      [] a = "summary" -> v = <<RInt(N(p))>> \o [i \in 1..4 |-> RInt(MBB(p)[i])]
                               \o <<WinArea(p), Over(N(p), WinArea(p))>>
      [] a = "head" -> v.cols = p.cols /\ v.rows = SubSeq(p.rows, 1, Min2(5, N(p)))
      [] a = "tail" -> v.cols = p.cols /\ v.rows = SubSeq(p.rows, Max2(1, N(p) - 4), N(p))
      [] OTHER -> FALSE

Coherence(s, e) ==
    UNION {LET h == e.heap[o] IN
             If(h.n # Len(h.rows) \/ h.len # Len(h.rows), "count")
             \cup If(h.pts # PtsOf(h), "points_are_coordinate_columns")
             \cup (IF o <= Len(s)
                   THEN If(~(e.op \in Mutators /\ e.o = o) /\ ~Same(s[o], h), "other_objects_untouched")
                        \cup If(e.op \in Mutators /\ e.o = o /\ h.pts # PtsOf(s[o]), "points_fixed")
                   ELSE {})
           : o \in 1..Len(e.heap)}
    \cup If(~e.inputs_same, "callers_data_untouched")
    \cup (IF e.op = "Read" /\ Readable(s[e.o], e.attr)
          THEN (IF e.exc # "" THEN {"attribute_available"}
                ELSE IF ReadOK(s[e.o], e.attr, e.v) THEN {} ELSE {"attr_" \o e.attr})
          ELSE {})

Start(s, e) == IF e.first THEN <<>> ELSE s

Bad(s0, e) ==
    LET s == Start(s0, e)
    IN  IF e.op \in {"Fail", "Crash"} THEN {"no_exception"}
        ELSE (IF "algebra" \in Groups /\ e.op # "Read" THEN Algebra(s, e) ELSE {})
             \cup (IF "coherence" \in Groups THEN Coherence(s, e) ELSE {})

Post(s0, e) ==
    LET s == Start(s0, e)
    IN  IF e.op \in {"Fail", "Crash"} THEN s
        ELSE LET x == Expect(s, e)
             IN  [o \in 1..Len(e.heap) |->
                    [cols |-> e.heap[o].cols, rows |-> e.heap[o].rows, cx |-> e.heap[o].cx,
                     cy |-> e.heap[o].cy, win |-> e.heap[o].win,
                     marks |-> IF o <= Len(x) THEN x[o].marks ELSE Len(e.heap[o].cols) - 2]]

Trace == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH St0 <- <<>>
=============================================================================

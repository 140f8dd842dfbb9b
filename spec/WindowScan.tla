---------------------------- MODULE WindowScan ----------------------------
(* Filtering points by a window.  A window is flat: a list of closed shells and  *)
(* a list of closed holes; a point is kept when some shell contains it and no    *)
(* hole does.  For regions without a part inside a hole of another part this is  *)
(* the region itself; with such islands it is not (Islands = TRUE is refuted:    *)
(* windows of that kind cannot be represented).  Ends = "closing" appends the    *)
(* first vertex of open rings only, "always" of every ring (wrong: not           *)
(* idempotent).  Filtering keeps the order and what it kept it keeps again.      *)
EXTENDS Region, Json
CONSTANTS Islands, Ends, Emitting
VARIABLES reg, open, win, queue, kept, pc
vars == <<reg, open, win, queue, kept, pc>>
Sq(a, b) == <<<<a, a>>, <<b, a>>, <<b, b>>, <<a, b>>>>
Ring0 == {<<Sq(0, 8)>>, <<Sq(0, 8), Sq(2, 6)>>, <<Sq(0, 8), <<<<1, 1>>, <<3, 1>>, <<1, 7>>>>, Sq(5, 7)>>,
          <<<<<<0, 0>>, <<8, 0>>, <<8, 3>>, <<3, 3>>, <<3, 8>>, <<0, 8>>>>>>, <<<<<<0, 0>>, <<8, 0>>, <<0, 8>>>>>>}
Other == {<<>>, <<<<Sq(9, 11)>>>>, <<<<Sq(9, 13), Sq(10, 12)>>>>, <<<<Sq(-4, -2)>>, <<<<<<9, 0>>, <<13, 0>>, <<11, 7>>>>>>>>}
Isle == {<<>>} \cup (IF Islands THEN {<<<<Sq(3, 5)>>>>} ELSE {})
Regions == {<<a>> \o b \o c : a \in Ring0, b \in Other, c \in Isle}
Proper(R) == Len(R) = 1 \/ \A i, j \in 1..Len(R) : i # j => ~InPart(R[j][1][1], R[i])
Close(r) == IF Ends = "closing" /\ r[1] = r[Len(r)] THEN r ELSE Append(r, r[1])

Flat(R) == [parts |-> [i \in 1..Len(R) |-> Close(R[i][1])],
            holes |-> FlattenSeq([i \in 1..Len(R) |-> [j \in 1..(Len(R[i]) - 1) |-> Close(R[i][j + 1])]])]
InFlat(p, w) == (\E i \in 1..Len(w.parts) : InRing(p, w.parts[i])) /\ (\A j \in 1..Len(w.holes) : ~InRingOpen(p, w.holes[j]))
Queue == <<<<9, 7>>, <<1, 1>>, <<-7, -5>>, <<5, 5>>, <<1, 1>>, <<21, 19>>, <<15, 3>>, <<23, 3>>, <<7, 9>>, <<3, 13>>, <<9, 9>>, <<21, 3>>>>
Init == /\ reg \in {R \in Regions : Proper(R)} /\ open \in BOOLEAN
        /\ win = <<>> /\ queue = Queue /\ kept = <<>> /\ pc = "build"
        /\ Emitting => PrintT("SCN " \o ToJson([reg |-> reg, open |-> IF open THEN 1 ELSE 0]))
Build == /\ pc = "build" /\ pc' = "scan"
         /\ win' = Flat(IF open THEN reg ELSE [i \in 1..Len(reg) |-> [j \in 1..Len(reg[i]) |-> Append(reg[i][j], reg[i][j][1])]])
         /\ UNCHANGED <<reg, open, queue, kept>>
Dbl(w) == [parts |-> [i \in 1..Len(w.parts) |-> [k \in 1..Len(w.parts[i]) |-> <<2 * w.parts[i][k][1], 2 * w.parts[i][k][2]>>]],
           holes |-> [i \in 1..Len(w.holes) |-> [k \in 1..Len(w.holes[i]) |-> <<2 * w.holes[i][k][1], 2 * w.holes[i][k][2]>>]]]
Scan == /\ pc = "scan" /\ queue # <<>>
        /\ queue' = Tail(queue)
        /\ kept' = IF InFlat(Head(queue), Dbl(win)) THEN Append(kept, Head(queue)) ELSE kept
        /\ UNCHANGED <<reg, open, win, pc>>
Spec == Init /\ [][Build \/ Scan]_vars
RECURSIVE Sel(_, _)
Sel(q, R) == IF q = <<>> THEN <<>> ELSE (IF InReg(Head(q), ScaleReg(R, 2)) THEN <<Head(q)>> ELSE <<>>) \o Sel(Tail(q), R)
\* what is kept is what the region contains, in order
Right == kept \o Sel(queue, reg) = Sel(Queue, reg)
\* closing twice is closing once, and open and closed rings give one window
Closed == pc = "scan" => /\ \A i \in 1..Len(win.parts) : Close(win.parts[i]) = win.parts[i]
                         /\ win = Flat(reg)
AreaOk == pc = "scan" => LET A(r) == Abs(Area2(r)) IN
            SumSeq([i \in 1..Len(win.parts) |-> A(win.parts[i])]) - SumSeq([i \in 1..Len(win.holes) |-> A(win.holes[i])]) = RegArea2(reg)
=============================================================================

----------------------------- MODULE PPSession -----------------------------
(* A session: several pattern objects, created from and related to each      *)
(* other, read and changed in any order.  The heap maps object ids to the    *)
(* current value of the object.  hist is the history, printed as a scenario  *)
(* when it is long enough; the driver replays it on the real objects.        *)
EXTENDS PP, Json

CONSTANTS MaxObj,   \* objects that may exist
          MaxN,     \* points per new pattern
          Grid,     \* coordinates are 0..Grid
          Steps,    \* length of a history
          Random    \* TRUE: sample parameters (simulation); FALSE: enumerate

VARIABLES heap, hist

vars == <<heap, hist>>
Live == DOMAIN heap
Next_ == Cardinality(Live) + 1

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S

RowsOf(n, w) == \* set of row sequences
    IF Random
    THEN {TLCEval([i \in 1..n |-> TLCEval([j \in 1..w |-> RandomElement(0..(IF j <= 2 THEN Grid ELSE 2))])])}
    ELSE [1..n -> [1..w -> 0..Grid]]

Names == {<<>>, <<"x", "y", "m">>, <<"a", "b", "c">>, <<"m", "lon", "lat">>}
Coords == {<<>>, <<"lon", "lat">>, <<"b", "a">>, <<"y", "x">>}
\* consistent ways of naming the columns: <<width, names, coord_names>>
Namings == {<<w, <<>>, cn>> : w \in 2..4, cn \in Coords}
           \cup {t \in {<<3, nm, cn>> : nm \in Names \ {<<>>}, cn \in Coords} :
                   Range(t[3]) \subseteq Range(t[2])}

Kinds == {"list", "array", "frame"}

Wins == {<<0, 0, 4, 4, 32>>,            \* square
         <<-1, -2, 7, 8, 160>>,         \* rectangle
         <<0, 0, 6, 6, 54>>,            \* L shape, a 3 x 3 corner is missing
         <<0, 0, 8, 8, 96>>}            \* square with a 4 x 4 hole

Init == heap = <<>> /\ hist = <<>>

Log(e) == hist' = Append(hist, e)

New ==
    /\ Next_ <= MaxObj
    /\ \E n \in Pick(1..MaxN), t \in Pick(Namings), win \in Pick({<<>>} \cup Wins),
          kind \in Pick(Kinds) :
      LET w == t[1]  nm == t[2]  cn == t[3] IN
        /\ \E rows \in RowsOf(n, w) :
            /\ heap' = heap @@ (Next_ :> NewPat(rows, nm, cn, win))
            /\ Log([op |-> "New", kind |-> kind, rows |-> rows, names |-> nm, coords |-> cn, win |-> win])

Mark ==
    \E o \in Live, t \in Pick({<<1, <<>>>>, <<2, <<>>>>, <<1, <<"m">>>>, <<2, <<"q", "r">>>>, <<1, <<"q">>>>}) :
      LET k == t[1]  nm == t[2] IN
        /\ ~\E i \in 1..Len(nm) : nm[i] \in {heap[o].cx, heap[o].cy}  \* marks are not coordinates
        /\ Len(heap[o].cols) <= 6
        /\ \E vals \in IF Random
                       THEN {TLCEval([j \in 1..k |-> TLCEval([i \in 1..N(heap[o]) |-> RandomElement(0..2)])])}
                       ELSE [1..k -> [1..N(heap[o]) -> 0..1]] :
            /\ heap' = [heap EXCEPT ![o] = AddMarks(heap[o], nm, vals)]
            /\ Log([op |-> "Mark", o |-> o, names |-> nm, vals |-> vals])

SetWin ==
    \E o \in Live, w \in Pick(Wins) :
        /\ heap' = [heap EXCEPT ![o].win = w]
        /\ Log([op |-> "SetWin", o |-> o, win |-> w])

\* dropping the window: the pattern falls back to its bounding box
DropWin ==
    \E o \in Live :
        /\ heap' = [heap EXCEPT ![o].win = RectWin(MBB(heap[o]))]
        /\ Log([op |-> "DropWin", o |-> o])

Uniq ==
    /\ Next_ <= MaxObj
    /\ \E o \in Live :
        /\ heap' = heap @@ (Next_ :> Unique(heap[o]))
        /\ Log([op |-> "Unique", o |-> o])

Super ==
    \E o \in Live, q \in Live :
        IF Compatible(heap[o], heap[q])
        THEN /\ Next_ <= MaxObj
             /\ heap' = heap @@ (Next_ :> Superimpose(heap[o], heap[q]))
             /\ Log([op |-> "Super", o |-> o, q |-> q])
        ELSE /\ heap' = heap
             /\ Log([op |-> "Super", o |-> o, q |-> q])

Expl ==
    \E o \in Live : \E c \in Pick(Range(heap[o].cols)) :
        LET parts == Explode(heap[o], c)
        IN  /\ Cardinality(Live) + Len(parts) <= MaxObj
            /\ heap' = heap @@ [k \in (Next_)..(Cardinality(Live) + Len(parts)) |-> parts[k - Cardinality(Live)]]
            /\ Log([op |-> "Explode", o |-> o, col |-> c])

Flip == \E o \in Live : heap' = heap /\ Log([op |-> "Flip", o |-> o])

Read ==
    \E o \in Live, a \in Pick(Attrs) :
        /\ Readable(heap[o], a)
        /\ heap' = heap
        /\ Log([op |-> "Read", o |-> o, attr |-> a])

Has ==
    \E o \in Live, x \in Pick(0..Grid), y \in Pick(0..Grid) :
        /\ heap' = heap
        /\ Log([op |-> "Has", o |-> o, pt |-> <<x, y>>])

Op == New \/ Mark \/ SetWin \/ DropWin \/ Uniq \/ Super \/ Expl \/ Flip \/ Read \/ Has
\* the history is complete: hand it to the driver
Emit == /\ Random
        /\ Len(hist) = Steps
        /\ PrintT("SCN " \o ToJson(hist))
        /\ hist' = Append(hist, [op |-> "End"])
        /\ heap' = heap
Next == (Len(hist) < Steps /\ Op) \/ Emit
Spec == Init /\ [][Next]_vars

(* What the algebra guarantees, whatever the history. ------------------------ *)
TypeOK == \A o \in Live : LET p == heap[o] IN
    /\ N(p) >= 1
    /\ \A i \in 1..N(p) : Len(p.rows[i]) = Len(p.cols)
    /\ p.cx \in Range(p.cols) /\ p.cy \in Range(p.cols)
UniqueLaws == \A o \in Live : LET p == heap[o] u == Unique(p) IN
    /\ Range(u.rows) = Range(p.rows)
    /\ Len(u.rows) = Cardinality(Range(p.rows))
    /\ Unique(u) = u
    /\ u.win = p.win
SuperLaws == \A o, q \in Live : Compatible(heap[o], heap[q]) =>
    LET s == Superimpose(heap[o], heap[q]) IN
    /\ Range(s.rows) = Range(heap[o].rows) \cup Range(heap[q].rows)
    /\ Range(s.rows) = Range(Superimpose(heap[q], heap[o]).rows)
    /\ Superimpose(heap[o], heap[o]).rows = Unique(heap[o]).rows
ExplodeLaws == \A o \in Live : \A c \in Range(heap[o].cols) :
    LET p == heap[o]
        e == Explode(p, c)
    IN  /\ N(p) = SumSeq([i \in 1..Len(e) |-> N(e[i])])
        /\ \A i \in 1..Len(e) : Cardinality(ColVals(e[i], c)) = 1
        /\ UNION {Range(e[i].rows) : i \in 1..Len(e)} = Range(p.rows)
HullLaws == \A o \in Live : CanHull(heap[o]) =>
    LET p == heap[o] h == Hull(PtSet(p)) IN
    /\ Range(h) \subseteq PtSet(p)
    /\ \A x \in PtSet(p) : InConvex(x, h)
    /\ RLeq(HullArea(p), RInt(MBBArea(p)))


(* exhaustive configuration: only operations that change the heap, small Namings *)
SpecMC == Init /\ [][Len(hist) < Steps /\ (New \/ Mark \/ SetWin \/ DropWin \/ Uniq \/ Super \/ Expl)]_vars
NamingsMC == {<<3, <<"m", "a", "b">>, <<"a", "b">>>>}
NoWins == {}
KindsMC == {"list"}
WinsMC == {<<0, 0, 6, 6, 54>>}
View == <<heap, Len(hist)>>
=============================================================================

------------------------------ MODULE PPCache ------------------------------
(* Memoisation of derived values.  An object has fixed points, a window that *)
(* can be replaced, and marks that can be added; a derived value is a        *)
(* function of the points alone or of the points and the window.  Values are *)
(* stored on first use in a cache; Shared = TRUE models one cache used by    *)
(* all objects instead of one per object.                                    *)
(* Coherent: a read returns the value of the current state, in any history.  *)
EXTENDS Integers, TLC

CONSTANTS Objs, Wins, Cached, Shared

OfPoints == {"mbb", "nnd"}
OfWindow == {"lambda_window"}
Attr == OfPoints \cup OfWindow

VARIABLES pts, win, marks, cache, last
vars == <<pts, win, marks, cache, last>>

Fresh(o, a) == IF a \in OfPoints THEN <<a, pts[o]>> ELSE <<a, pts[o], win[o]>>
Slot(o) == IF Shared THEN CHOOSE x \in Objs : TRUE ELSE o

Init == /\ pts \in [Objs -> 1..2] /\ win \in [Objs -> Wins] /\ marks = [o \in Objs |-> 0]
        /\ cache = [o \in Objs |-> [a \in Attr |-> <<>>]]
        /\ last = <<>>

Read(o, a) ==
    LET hit == a \in Cached /\ cache[Slot(o)][a] # <<>>
        v == IF hit THEN cache[Slot(o)][a] ELSE Fresh(o, a)
    IN  /\ cache' = IF a \in Cached THEN [cache EXCEPT ![Slot(o)][a] = v] ELSE cache
        /\ last' = <<o, a, v>>
        /\ UNCHANGED <<pts, win, marks>>
SetWin(o, w) == /\ win' = [win EXCEPT ![o] = w] /\ last' = <<>>
                /\ UNCHANGED <<pts, marks, cache>>
AddMark(o) == /\ marks[o] < 1 /\ marks' = [marks EXCEPT ![o] = @ + 1] /\ last' = <<>>
              /\ UNCHANGED <<pts, win, cache>>

Next == \E o \in Objs : \/ \E a \in Attr : Read(o, a)
                        \/ \E w \in Wins : SetWin(o, w)
                        \/ AddMark(o)
Spec == Init /\ [][Next]_vars
Coherent == last = <<>> \/ last[3] = Fresh(last[1], last[2])
=============================================================================

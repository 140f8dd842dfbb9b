------------------------------ MODULE LoadPath ------------------------------
(* Finding the table that belongs to a shapefile: the companion of a path is in *)
(* the same directory, with the same stem and the other extension.  A path is a *)
(* sequence of characters: "a", "b" stand for letters, "." and "/" for          *)
(* themselves; it ends in ".s" (the shapefile's extension), the table in ".d".  *)
(* Cut = "last" replaces what follows the last dot, "first" what follows the     *)
(* first dot (wrong), "stem" drops the directory (wrong).                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len0, Cut, Emitting
VARIABLES p, at, dots, out
vars == <<p, at, dots, out>>
Ok(q) == /\ q[1] \in {"a", "b"} /\ q[Len(q)] # "/"
         /\ \A k \in 1..(Len(q) - 1) : ~(q[k] = "/" /\ q[k + 1] = "/")
         /\ ~(q[Len(q)] = ".")   \* the stem itself ends in a letter
Path(q) == q \o <<".", "s">>
Init == /\ \E n \in 1..Len0 : p \in {q \in [1..n -> {"a", "b", ".", "/"}] : Ok(q)}
        /\ at = 0 /\ dots = {} /\ out = <<>>
        /\ Emitting => PrintT("SCN " \o ToJson([p |-> p]))
\* read the path once, noting the dots (and, for "stem", the slashes)
Scan == /\ at < Len(p) + 2
        /\ at' = at + 1
        /\ dots' = IF Path(p)[at'] = "." THEN dots \cup {at'} ELSE dots
        /\ UNCHANGED <<p, out>>
Slash == {k \in 1..Len(p) : p[k] = "/"}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Build == /\ at = Len(p) + 2 /\ out = <<>>
         /\ out' = LET d == IF Cut = "first" THEN Min(dots) ELSE Max(dots)
                       b == IF Cut = "stem" /\ Slash # {} THEN Max(Slash) + 1 ELSE 1
                   IN  SubSeq(Path(p), b, d - 1) \o <<".", "d">>
         /\ UNCHANGED <<p, at, dots>>
Spec == Init /\ [][Scan \/ Build]_vars
Companion == out # <<>> => out = p \o <<".", "d">>
=============================================================================

------------------------------- MODULE T_PURE -------------------------------
(* Verdict on recorded histories of calls on objects that the caller edits.    *)
(* State: what each object holds (how often it was edited, modulo 2) and the   *)
(* results so far.  e.r identifies a result up to rounding.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l, st
If(c, name) == IF c THEN {name} ELSE {}
Init0 == [v |-> <<0, 0>>, seen |-> {}]
\* e.v: the contents of the copies that a fresh call is made on
Held(s, e) == IF e.op = "Fresh" THEN e.v ELSE s.v[e.o]
Bad(s, e) ==
    CASE e.op \in {"Fail", "Crash"} -> {"no_exception"}
      [] e.exc # "" -> {"no_exception"}
      [] e.op \in {"Do", "Fresh"} ->
            If(e.changed # "", "arguments_untouched")
            \cup If(\E r \in s.seen : r.f = e.f /\ r.o = e.o /\ r.v = Held(s, e) /\ r.r # e.r, "same_contents_same_result")
      [] OTHER -> {}
Post(s, e) ==
    CASE e.op = "Begin" -> Init0
      [] e.op = "Edit" -> [s EXCEPT !.v[e.o] = 1 - @]
      [] e.op \in {"Do", "Fresh"} /\ e.exc = "" -> [s EXCEPT !.seen = @ \cup {[f |-> e.f, o |-> e.o, v |-> Held(s, e), r |-> e.r]}]
      [] OTHER -> s
Trace == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH St0 <- Init0
=============================================================================

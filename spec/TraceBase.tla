----------------------------- MODULE TraceBase -----------------------------
(* Trace validation with a total verdict.                                      *)
(*                                                                             *)
(* A trace is a newline delimited JSON file (environment variable TRACE) of    *)
(* events recorded from the real code, one event per public call.  Instead of  *)
(* stopping at the first event that the specification rejects, every event is  *)
(* judged: Bad(st, e) is the set of names of the clauses that event e breaks   *)
(* in abstract state st, and Post(st, e) is the abstract state after e.        *)
(* Trace is defined in the root module, so that TLC reads the file once.       *)
(* One TLC state per event; TLC prints one BAD line per rejected event and a   *)
(* DONE line when the whole trace was consumed.                                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Bad(_, _), Post(_, _), St0, Trace
VARIABLES l, st

TInit == l = 0 /\ st = St0

TNext ==
    /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l + 1]
           b == Bad(st, e)
       IN  /\ st' = Post(st, e)
           /\ IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([id |-> e.id, c |-> b]))
           /\ IF l + 1 = Len(Trace) THEN PrintT("DONE " \o ToString(l + 1)) ELSE TRUE

TSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================

------------------------------- MODULE T_RNG -------------------------------
(* Verdict on recorded histories of seeded calls.                              *)
(* State: use - what each generator object and the global state were used for  *)
(* so far (a stream is <<kind, seed, history>>); seen - the results so far,    *)
(* over all histories of the trace.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l, st
If(c, name) == IF c THEN {name} ELSE {}
Prefix(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* b continues a with calls of the same request only.  (Other uses may only skip
\* candidates that would have been rejected anyway, or shift the draws.)
Continues(a, b, t) == Prefix(a, b) /\ \A i \in (Len(a) + 1)..Len(b) : b[i] = t
Init0 == [use |-> <<>>, glob |-> <<>>, seen |-> {}]
Tok(e) == e.fn \o "/" \o e.args
Req(e) == <<e.fn, e.args>>
\* an integer seed is a new generator with that seed
Stream(s, e) == CASE e.k = "int" -> <<"s", e.seed, <<>>>>
                  [] e.k = "gen" -> s.use[e.g]
                  [] e.k = "global" -> s.glob
Call(s, e) ==
    If(e.gchanged /\ e.k # "global", "global_state_untouched")
    \cup IF e.k = "none" THEN If(e.d = e.d2, "fresh_entropy_without_a_seed")
         ELSE LET x == Stream(s, e)
                  same == {r \in s.seen : r.q = Req(e) /\ r.x[1] = x[1]}
              IN  If(\E r \in same : r.x = x /\ r.d # e.d, "bit_identical_for_the_same_seed")
                  \cup If(e.wide /\ \E r \in same : r.d = e.d /\ r.x[2] = x[2] /\ (Continues(r.x[3], x[3], Tok(e)) \/ Continues(x[3], r.x[3], Tok(e))), "generator_is_advanced")
                  \cup If(e.wide /\ \E r \in same : r.d = e.d /\ r.x[2] # x[2], "different_seeds_differ")
Bad(s, e) ==
    CASE e.op \in {"Fail", "Crash"} -> {"no_exception"}
      [] e.exc # "" -> {"no_exception"}
      [] e.op = "Call" -> Call(s, e)
      [] OTHER -> {}
Post(s, e) ==
    CASE e.op = "Begin" -> [s EXCEPT !.use = [g \in 1..Len(e.kinds) |-> <<e.kinds[g], e.seeds[g], <<>>>>], !.glob = <<"G", 99, <<>>>>]
      [] e.op = "Draw" -> [s EXCEPT !.use[e.g][3] = Append(@, "draw")]
      [] e.op = "GSeed" -> [s EXCEPT !.glob = <<"G", e.seed, <<>>>>]
      [] e.op = "GDraw" -> [s EXCEPT !.glob[3] = Append(@, "draw")]
      [] e.op = "Call" /\ e.exc = "" /\ e.k # "none" ->
            LET x == Stream(s, e)
                tok == Tok(e)
                t == [s EXCEPT !.seen = @ \cup {[q |-> Req(e), x |-> x, d |-> e.d]}]
            IN  CASE e.k = "gen" -> [t EXCEPT !.use[e.g][3] = Append(@, tok)]
                  [] e.k = "global" -> [t EXCEPT !.glob[3] = Append(@, tok)]
                  [] OTHER -> t
      [] OTHER -> s
Trace == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH St0 <- Init0
=============================================================================

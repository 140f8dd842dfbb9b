----------------------------- MODULE RngStream -----------------------------
(* Histories of calls with integer seeds, shared generators and numpy's       *)
(* global state.  A stream is <<seed, history>>; two calls must give the same *)
(* result exactly when they start from the same stream with the same request. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Fns, Seeds, Gens, Depth, Variant, Emitting
VARIABLES gen, glob, cache, hist, res, ops
vars == <<gen, glob, cache, hist, res, ops>>

\* where a call takes its randomness from
Srcs == [k : {"int"}, v : Seeds] \cup [k : {"gen"}, v : Gens] \cup {[k |-> "none", v |-> 0]}
GSeed(g) == IF g = 1 THEN 7 ELSE 8      \* both kinds of seeds meet: generator 1 is default_rng(7)

Init == /\ gen = [g \in Gens |-> 0]     \* positions of the generators
        /\ glob = 0                     \* position of the global state
        /\ cache = [s \in Seeds |-> 0]
        /\ hist = [g \in Gens |-> <<>>] \* what the generator was used for
        /\ res = {}                     \* <<fn, seed, history, result>> of all calls with a source
        /\ ops = <<>>

\* the position (of a stream with that seed) the call reads; Variant is the design
Read(s) == CASE s.k = "int" /\ Variant = "shared" -> <<s.v, cache[s.v]>>
             [] s.k = "int" /\ Variant = "global" -> <<"G", glob>>
             [] s.k = "int" -> <<s.v, 0>>
             [] s.k = "gen" /\ Variant = "reseed" -> <<GSeed(s.v), 0>>
             [] s.k = "gen" -> <<GSeed(s.v), gen[s.v]>>
             [] OTHER -> <<"E", Len(ops)>>

Call(f, s) ==
    /\ gen' = IF s.k = "gen" /\ Variant # "reseed" THEN [gen EXCEPT ![s.v] = @ + 1] ELSE gen
    /\ cache' = IF s.k = "int" THEN [cache EXCEPT ![s.v] = @ + 1] ELSE cache
    /\ glob' = IF s.k = "int" /\ Variant = "global" THEN glob + 1 ELSE glob
    /\ hist' = IF s.k = "gen" THEN [hist EXCEPT ![s.v] = Append(@, f)] ELSE hist
    /\ res' = IF s.k = "none" THEN res
              ELSE res \cup {[f |-> f, seed |-> IF s.k = "gen" THEN GSeed(s.v) ELSE s.v,
                              h |-> IF s.k = "gen" THEN hist[s.v] ELSE <<>>, r |-> <<f, Read(s)>>]}
    /\ ops' = Append(ops, [op |-> "call", f |-> f, k |-> s.k, v |-> s.v])
\* the caller draws from a generator, or seeds or uses the global state
Draw(g) == /\ gen' = [gen EXCEPT ![g] = @ + 1]
           /\ hist' = [hist EXCEPT ![g] = Append(@, 0)]
           /\ ops' = Append(ops, [op |-> "draw", f |-> 0, k |-> "gen", v |-> g])
           /\ UNCHANGED <<glob, cache, res>>
Global(k) == /\ glob' = IF k = "seed" THEN 0 ELSE glob + 1
             /\ ops' = Append(ops, [op |-> k, f |-> 0, k |-> "global", v |-> 0])
             /\ UNCHANGED <<gen, cache, hist, res>>

Next == /\ Len(ops) < Depth
        /\ \/ \E f \in Fns, s \in Srcs : Call(f, s)
           \/ \E g \in Gens : Draw(g)
           \/ \E k \in {"seed", "gdraw"} : Global(k)
Spec == Init /\ [][Next]_vars

Prefix(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
Reproducible == \A a, b \in res : a.f = b.f /\ a.seed = b.seed /\ a.h = b.h => a.r = b.r
Advances == \A a, b \in res : a.f = b.f /\ a.seed = b.seed /\ Prefix(a.h, b.h) => a.r # b.r
SeedsDiffer == \A a, b \in res : a.f = b.f /\ a.seed # b.seed => a.r # b.r
\* calls leave the global state where it was
Isolated == [][ops' # ops /\ ops'[Len(ops')].op = "call" => glob' = glob]_vars
Emit == Emitting /\ Len(ops) = Depth /\ Cardinality(res) >= 2 => PrintT("SCN " \o ToJson([ops |-> ops]))
=============================================================================

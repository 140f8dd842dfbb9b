--------------------------- MODULE SpaceTimeLaws ---------------------------
(* Laws of the Knox statistics and of the permutation schemes, for every small  *)
(* event set.  A behaviour picks an event set, then a permutation of the event   *)
(* times (by the rule under test), then a focal event whose own time is put      *)
(* back by exchanging it, as the conditional simulation does.                    *)
EXTENDS SpaceTime, TLC, Json
CONSTANTS NMax, G, TG, Rule, Cond, Emitting
VARIABLES s, t, dd, tt, f, g, i, pc
vars == <<s, t, dd, tt, f, g, i, pc>>
Sorted(q) == \A k \in 1..(Len(q) - 1) : q[k][1] < q[k + 1][1] \/ (q[k][1] = q[k + 1][1] /\ q[k][2] <= q[k + 1][2])

Init == /\ \E n \in 2..NMax :
             /\ s \in {q \in [1..n -> ((0..G) \X (0..1))] : Sorted(q) /\ q[1][1] = 0}
             /\ t \in {q \in [1..n -> 0..TG] : \E k \in 1..n : q[k] = 0}
             /\ (Rule = "free" => n <= 3)
             /\ f = [k \in 1..n |-> k] /\ g = [k \in 1..n |-> k]
        /\ dd \in {0, 4} /\ tt \in {0, 2}
        /\ i = 1 /\ pc = "events"
        /\ Emitting => PrintT("SCN " \o ToJson([s |-> s, t |-> t, dd |-> dd, tt |-> tt]))
\* "perm": a permutation;  "free": every event draws a time for itself (wrong)
Draw == /\ pc = "events"
        /\ f' \in (IF Rule = "perm" THEN Perms(Len(s)) ELSE [1..Len(s) -> 1..Len(s)])
        /\ pc' = "drawn" /\ UNCHANGED <<s, t, dd, tt, g, i>>
\* "swap": the event holding i gets what i held;  "set": i is only overwritten (wrong)
Fixed(h, k) == [m \in 1..Len(h) |-> IF m = k THEN k ELSE IF h[m] = k /\ Cond = "swap" THEN h[k] ELSE h[m]]
Focus == /\ pc = "drawn"
         /\ i' \in 1..Len(s) /\ g' = Fixed(f, i')
         /\ pc' = "cond" /\ UNCHANGED <<s, t, dd, tt, f>>
Spec == Init /\ [][Draw \/ Focus]_vars

S == SAdj(s, dd)
T == TAdj(t, tt)
AtStart == pc = "events"
TableOk == AtStart => /\ Observed(S, T) = Table(s, t, dd, tt)
                      /\ SumOver(LAMBDA k : Local(S, T, k), Len(s)) = 2 * Nst(S, T)
\* the mean over all permutations is the expected count
MeanOk == AtStart => LET PP == Perms(Len(s))
                         cnt(v) == Cardinality({h \in PP : PermNst(S, T, h) = v})
                         c == TLCEval([k \in 1..NPairs(Len(s)) |-> cnt(k)])
                         sum == SumSeq([k \in 1..NPairs(Len(s)) |-> k * c[k]])
                         sum2 == SumSeq([k \in 1..NPairs(Len(s)) |-> k * k * c[k]])
                         m == Mean(S, T)
                     IN  /\ Rat(sum, Cardinality(PP)) = m
                         /\ RSub(Rat(sum2, Cardinality(PP)), RMul(m, m)) = Variance(S, T)
\* a drawn permutation relabels: counts of close pairs in time are unchanged, and
\* the statistic is that of the events with relabelled times
Relabel == pc = "drawn" => LET u == [k \in 1..Len(s) |-> t[f[k]]]
                           IN  /\ PermNst(S, T, f) = Nst(S, TAdj(u, tt))
                               /\ Half(TAdj(u, tt)) = Half(T)
Conditional == pc = "cond" => g \in Perms(Len(s)) /\ g[i] = i
\* conditional on event k the local statistic is hypergeometric
Hyper == AtStart =>
    \A k \in 1..Len(s) : LET PP == {h \in Perms(Len(s)) : h[k] = k}
                             n1 == Len(s) - 1
                             ns == Cardinality(S[k])
                             nt == Cardinality(T[k])
                         IN  \A v \in 0..n1 : Cardinality({h \in PP : PermLocal(S, T, h, k) = v}) * Binom(n1, ns)
                                              = HypPmf(n1, nt, ns, v) * Cardinality(PP)
\* exchanging makes every permutation that keeps k equally likely
SwapUniform == AtStart =>
    \A k \in 1..Len(s) : \A h \in {x \in Perms(Len(s)) : x[k] = k} :
        Cardinality({x \in Perms(Len(s)) : [m \in 1..Len(s) |-> IF m = k THEN k ELSE IF x[m] = k THEN x[k] ELSE x[m]] = h}) = Len(s)
=============================================================================

------------------------------ MODULE HotLinks ------------------------------
(* Labelling hotspots: the significant events pull in their neighbours one link *)
(* at a time; the labels must come out as the connected components of all links *)
(* of significant events, whatever the order.  Using one link per listed event  *)
(* ("first") or only the links from significant events to significant ones      *)
(* ("own") splits components.  Events lie on a line and are close when next to  *)
(* each other in space and time.                                                *)
EXTENDS SpaceTime, TLC, Json
CONSTANTS N, XMax, TMax, Links, Emitting
VARIABLES x, t, sig, todo, label
vars == <<x, t, sig, todo, label>>
A == LET S == SAdj([i \in 1..N |-> <<x[i], 0>>], 4)  T == TAdj(t, 2) IN [i \in 1..N |-> S[i] \cap T[i]]
L(sg) == SigLinks(A, sg)
Used(sg) == CASE Links = "all" -> L(sg)
              [] Links = "own" -> {e \in L(sg) : e[1] \in sg /\ e[2] \in sg}
              [] Links = "first" -> {e \in L(sg) : \A f \in L(sg) : f[1] = e[1] => e[2] <= f[2]}
Init == /\ x \in {q \in [1..N -> 0..XMax] : \A k \in 1..(N - 1) : Links # "first" => q[k] <= q[k + 1]}
        /\ t \in {q \in [1..N -> 0..TMax] : \E k \in 1..N : q[k] = 0}
        /\ sig \in SUBSET (1..N)
        /\ todo = Used(sig)
        /\ label = [i \in Hot(A, sig, TRUE) |-> i]
        /\ (Emitting /\ sig = {}) => PrintT("SCN " \o ToJson([x |-> x, t |-> t]))
\* merge the two ends of a link
Merge == \E e \in todo :
            /\ todo' = todo \ {e}
            /\ label' = [i \in DOMAIN label |-> IF e[1] \in DOMAIN label /\ e[2] \in DOMAIN label /\ label[i] = label[e[2]] THEN label[e[1]] ELSE label[i]]
            /\ UNCHANGED <<x, t, sig>>
Spec == Init /\ [][Merge]_vars
Components == todo = {} => \A i, j \in DOMAIN label : (label[i] = label[j]) = (j \in Reach(L(sig), {i}))
Listed == \A e \in L(sig) : e[1] \in DOMAIN label /\ e[2] \in DOMAIN label
=============================================================================

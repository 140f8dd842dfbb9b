---------------------------- MODULE PlotSession ----------------------------
(* Plotting in a session with several open figures.  Every plot opens a new      *)
(* figure, which becomes the current one, and draws only there; drawing the      *)
(* chi-square contributions first draws the counts on a figure of its own, which *)
(* it closes.  The user selects and closes figures in between.                   *)
(* Close = "own" closes the scratch figure, "oldest" the oldest one (wrong);     *)
(* Draw = "new" draws on the new figure, "chosen" on the figure that was current *)
(* before (wrong).                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Steps, Close, Draw, Emitting
VARIABLES figs, cur, hist, want, next
vars == <<figs, cur, hist, want, next>>
\* figs: sequence of [id, art]; art: the set of things drawn; want: the same, as asked for
Kinds == {"pattern", "rect", "hex", "chi2"}
Init == figs = <<>> /\ cur = 0 /\ hist = <<>> /\ want = <<>> /\ next = 1
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
IndexOf(s, id) == CHOOSE k \in 1..Len(s) : s[k].id = id
\* open a figure and draw on it
Add(s, c, id, what) == LET t == Append(s, [id |-> id, art |-> {}])
                           on == IF Draw = "new" \/ c = 0 THEN Len(t) ELSE c
                       IN  [t EXCEPT ![on].art = @ \cup {what}]
Plot(kind) ==
    /\ LET simple == Add(figs, cur, next, <<kind, next>>)
           scratch == Add(figs, cur, next, <<"counts", next>>)
           gone == Drop(scratch, IF Close = "own" THEN Len(scratch) ELSE 1)
           both == Add(gone, IF gone = <<>> THEN 0 ELSE Len(gone), next + 1, <<kind, next + 1>>)
           id == IF kind = "chi2" THEN next + 1 ELSE next
       IN  /\ figs' = (IF kind = "chi2" THEN both ELSE simple)
           /\ want' = Append(want, [id |-> id, art |-> {<<kind, id>>}])
           /\ next' = id + 1
           /\ cur' = Len(figs')
    /\ hist' = Append(hist, [do |-> kind, k |-> 0])
Select(k) == /\ cur # k /\ cur' = k /\ hist' = Append(hist, [do |-> "select", k |-> k]) /\ UNCHANGED <<figs, want, next>>
CloseFig(k) == /\ figs' = Drop(figs, k) /\ want' = Drop(want, k) /\ cur' = Len(figs) - 1
               /\ hist' = Append(hist, [do |-> "close", k |-> k]) /\ UNCHANGED next
Next == /\ Len(hist) < Steps
        /\ \/ \E kind \in Kinds : Plot(kind)
           \/ \E k \in 1..Len(want) : k <= Len(figs) /\ (Select(k) \/ CloseFig(k))
        /\ (Emitting /\ Len(hist') = Steps) => PrintT("SCN " \o ToJson([hist |-> hist']))
Spec == Init /\ [][Next]_vars
\* every open figure shows what it was asked to show, and nothing else
Faithful == figs = want
=============================================================================

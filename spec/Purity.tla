------------------------------- MODULE Purity -------------------------------
(* Histories of calls on objects that the caller keeps and edits.  A call must  *)
(* leave the contents of its arguments alone, and its result may depend on      *)
(* these contents only: not on earlier calls, nor on earlier contents.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Fns, Objs, Depth, Variant, Emitting
VARIABLES belief, content, memo, mode, res, ops
vars == <<belief, content, memo, mode, res, ops>>

Init == /\ belief = [o \in Objs |-> 0]     \* what the caller put there last
        /\ content = [o \in Objs |-> 0]    \* what is there
        /\ memo = <<>>                     \* results an implementation remembers, by function and object
        /\ mode = 0                        \* a setting shared by all functions
        /\ res = {}
        /\ ops = <<>>

Key(f, o) == <<f, o>>
Answer(f, o) ==
    CASE Variant = "memo" /\ \E i \in 1..Len(memo) : memo[i][1] = Key(f, o) ->
            memo[CHOOSE i \in 1..Len(memo) : memo[i][1] = Key(f, o)][2]
      [] Variant = "leak" -> <<f, content[o], mode>>
      [] OTHER -> <<f, content[o], 0>>
Call(f, o) ==
    /\ res' = res \cup {[f |-> f, o |-> o, v |-> belief[o], r |-> Answer(f, o)]}
    /\ memo' = IF Variant = "memo" THEN Append(memo, <<Key(f, o), Answer(f, o)>>) ELSE memo
    /\ mode' = IF Variant = "leak" THEN f ELSE mode
    /\ content' = IF Variant = "inplace" /\ f = 1 THEN [content EXCEPT ![o] = @ + 10] ELSE content
    /\ ops' = Append(ops, [op |-> "call", f |-> f, o |-> o])
    /\ UNCHANGED belief
Edit(o) ==
    /\ belief' = [belief EXCEPT ![o] = 1 - @]
    /\ content' = [content EXCEPT ![o] = 1 - belief[o]]
    /\ ops' = Append(ops, [op |-> "edit", f |-> 0, o |-> o])
    /\ UNCHANGED <<memo, mode, res>>
Next == Len(ops) < Depth /\ (\/ \E f \in Fns, o \in Objs : Call(f, o)
                             \/ \E o \in Objs : Edit(o))
Spec == Init /\ [][Next]_vars

Untouched == content = belief
Determined == \A a, b \in res : a.f = b.f /\ a.o = b.o /\ a.v = b.v => a.r = b.r
Sensitive == \A a, b \in res : a.f = b.f /\ a.o = b.o /\ a.v # b.v => a.r # b.r
Emit == Emitting /\ Len(ops) = Depth /\ ops[1].op = "call" /\ ops[Depth].op = "call"
           /\ Cardinality({a.f : a \in res}) = Cardinality(Fns) => PrintT("SCN " \o ToJson([ops |-> ops]))
=============================================================================

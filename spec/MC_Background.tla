----------------------------- MODULE MC_Background -----------------------------
(* All small trees of task lists, growing and failing at every point.          *)
EXTENDS Background, Json
CONSTANTS MaxTasks, Export
VARIABLES s, hist, fresh, order
vars == <<s, hist, fresh, order>>
T(n) == [k |-> "t", id |-> n]
G(n) == [k |-> "g", id |-> n]
Roots == {<<>>, <<T(1)>>, <<T(1), T(2)>>, <<G(2)>>, <<T(1), G(2)>>, <<G(2), T(1)>>, <<T(1), G(2), T(2)>>}
Subs == {<<>>, <<T(3)>>, <<T(3), T(4)>>}
Holds(st, e) == \A i \in 1 .. Len(Checks(st, e)) : Checks(st, e)[i][2]
Init == /\ \E r \in Roots, u \in Subs : s = InitState([groups |-> <<r, u>>, none |-> FALSE])
        /\ hist = <<>> /\ fresh = 5 /\ order = <<>>
Log(a) == hist' = Append(hist, a)
Step(e, a) == Holds(s, e) /\ s' = Apply(s, e) /\ Log(a)
Sent == Step([t |-> "told", final |-> TRUE], [a |-> "sent"]) /\ UNCHANGED <<fresh, order>>
Broken == ~s.sent /\ s.broken = "" /\ Step([t |-> "broken", exc |-> "OSError"], [a |-> "broken"]) /\ UNCHANGED <<fresh, order>>
Start == NextTask(s) # 0 /\ Step([t |-> "start", id |-> NextTask(s), thread |-> FALSE, plain |-> FALSE, args |-> "", want |-> ""],
              [a |-> "start", id |-> NextTask(s)]) /\ order' = Append(order, NextTask(s)) /\ UNCHANGED fresh
Add == /\ fresh <= MaxTasks + 4
       /\ \E g \in 1 .. Len(s.groups) : Step([t |-> "add", g |-> g, id |-> fresh], [a |-> "add", g |-> g, id |-> fresh])
       /\ fresh' = fresh + 1 /\ UNCHANGED order
End == s.run # 0 /\ (\E ok \in BOOLEAN : Step([t |-> "end", id |-> s.run, ok |-> ok], [a |-> "end", ok |-> ok])) /\ UNCHANGED <<fresh, order>>
Ret == \E x \in {"", "TaskErr", "OSError"} :
         /\ Step([t |-> "ret", exc |-> x, same |-> TRUE], [a |-> "ret"])
         /\ (Export => PrintT("GEN " \o ToJson([groups |-> s.groups, hist |-> hist])))
         /\ UNCHANGED <<fresh, order>>
Next == Sent \/ Broken \/ Start \/ Add \/ End \/ Ret

RECURSIVE Leaves(_, _)
Leaves(groups, g) == FlatSeq([i \in 1 .. Len(groups[g]) |->
                        IF groups[g][i].k = "t" THEN <<groups[g][i].id>> ELSE Leaves(groups, groups[g][i].id)])
NoRepeat == \A i, j \in 1 .. Len(order) : order[i] = order[j] => i = j
(* the tasks that ran, in the order of the final tree; without failure, all but those added to a list already left *)
IsSub(a, b) == a = SelectSeq(b, LAMBDA x : x \in SeqSet(a))
InOrder == IsSub(order, Leaves(s.groups, 1))
AfterResponse == s.ran # {} => s.sent
StaticAllRan == (s.over /\ ~s.failed /\ s.broken = "") =>
                  {x \in SeqSet(Leaves(s.groups, 1)) : x < 5} \subseteq s.ran
RootAdditionsRan == (s.over /\ ~s.failed /\ s.broken = "") =>
                  \A i \in 1 .. Len(s.groups[1]) : s.groups[1][i].k = "t" => s.groups[1][i].id \in s.ran
=============================================================================

------------------------------ MODULE Background ------------------------------
(* Background tasks of a response: a tree of task lists (list 1 is attached to *)
(* the response) run depth first in order after the response, growing while    *)
(* they run, until one fails.                                                  *)
EXTENDS Str

(* cfg.groups: sequence of lists of [k |-> "t" | "g", id |-> n]; cfg.none: nothing is attached *)
InitState(cfg) == [groups |-> cfg.groups, none |-> cfg.none, stack |-> <<[g |-> 1, i |-> 1]>>, sent |-> FALSE, gone |-> FALSE,
                   broken |-> "", run |-> 0, ran |-> {}, failed |-> FALSE, over |-> FALSE]

(* the position of the next task to run: finished lists are left for good *)
RECURSIVE Norm(_, _)
Norm(groups, st) ==
  IF st = <<>> THEN st
  ELSE LET top == Last(st)
           rest == SubSeq(st, 1, Len(st) - 1)
       IN IF top.i > Len(groups[top.g])
          THEN Norm(groups, IF rest = <<>> THEN <<>>
                            ELSE [rest EXCEPT ![Len(rest)].i = @ + 1])
          ELSE LET it == groups[top.g][top.i]
               IN IF it.k = "g" THEN Norm(groups, Append(st, [g |-> it.id, i |-> 1])) ELSE st
NextTask(s) == LET st == Norm(s.groups, s.stack)
               IN IF st = <<>> THEN 0 ELSE s.groups[Last(st).g][Last(st).i].id

Done(s) == NextTask(s) = 0

Checks(s, e) ==
  CASE e.t = "told" -> <<<<"nothing-sent-after-the-final-message", ~s.sent /\ ~s.over>>,
                         <<"nothing-sent-after-a-failure", s.broken = "">>>>
    [] e.t = "broken" -> <<<<"tasks-wait-for-the-response", s.ran = {}>>>>
    [] e.t = "gone" -> <<>>
    [] e.t = "start" ->
         <<<<"task-starts-after-the-final-message", s.sent \/ s.gone>>,
           <<"no-task-when-the-response-failed", s.broken = "">>,
           <<"one-task-at-a-time", s.run = 0>>,
           <<"no-task-after-a-failed-one", ~s.failed>>,
           <<"each-task-once", e.id \notin s.ran>>,
           <<"next-in-order", ~s.none /\ e.id = NextTask(s)>>,
           <<"in-a-worker-thread-iff-a-plain-function", e.thread = e.plain>>,
           <<"its-own-arguments", e.args = e.want>>,
           <<"before-the-response-returns", ~s.over>>>>
    [] e.t = "add" -> <<<<"added-by-a-running-task", s.run # 0>>>>
    [] e.t = "end" -> <<<<"the-running-task", e.id = s.run>>>>
    [] e.t = "ret" ->
         <<<<"returns-once", ~s.over>>,
           <<"tasks-finished-before-returning", s.run = 0>>,
           <<"error-reaches-the-caller", e.exc = IF s.broken # "" THEN s.broken ELSE IF s.failed THEN "TaskErr" ELSE "">>,
           <<"same-error-object", e.same>>,
           <<"response-was-sent", s.broken = "" => s.sent \/ s.gone>>,
           <<"every-task-ran", (s.broken = "" /\ ~s.failed /\ ~s.none) => Done(s)>>>>

Apply(s, e) ==
  CASE e.t = "told" -> [s EXCEPT !.sent = e.final]
    [] e.t = "broken" -> [s EXCEPT !.broken = e.exc]
    [] e.t = "gone" -> [s EXCEPT !.gone = TRUE]
    [] e.t = "start" -> [s EXCEPT !.run = e.id, !.ran = @ \cup {e.id}, !.stack = Norm(s.groups, s.stack)]
    [] e.t = "add" -> [s EXCEPT !.groups[e.g] = Append(@, [k |-> "t", id |-> e.id])]
    [] e.t = "end" -> [s EXCEPT !.run = 0, !.failed = ~e.ok, !.stack[Len(s.stack)].i = @ + 1]
    [] e.t = "ret" -> [s EXCEPT !.over = TRUE]
=============================================================================

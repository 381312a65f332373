--------------------------------- MODULE Threads ---------------------------------
(* Requests made of steps, each a plain function (p) or asynchronous: an       *)
(* endpoint, an exception handler, the items of a streamed response, then      *)
(* background tasks.  cfg.reqs: sequence of [ep, out = "value" | "raise" |     *)
(* "stream", handler, items, iter, breakat (0 none), tasks, failing (0 none)]  *)
(* where ep, handler, iter and the entries of tasks are TRUE for plain; reraise: *)
(* the handler is the one for server errors, after which the error is raised.  *)
(* Events: begin(r, w, k, loop = on the event loop's thread, ctx = the request *)
(* whose context variable it sees, args = its arguments are right), end(r);    *)
(* ping(ok): the loop served something else meanwhile; over(r, exc, same =     *)
(* the very exception, body, got = what handler or caller received is right).  *)
EXTENDS Str

Items(p) == IF p.breakat > 0 THEN p.breakat ELSE p.items
Tasks(p) == IF p.failing > 0 THEN SubSeq(p.tasks, 1, p.failing) ELSE p.tasks
Stages(p) ==
  <<[w |-> "ep", k |-> 1, plain |-> p.ep]>>
  \o (IF p.out = "raise" THEN <<[w |-> "handler", k |-> 1, plain |-> p.handler]>> ELSE <<>>)
  \o (IF p.out = "stream" THEN [i \in 1 .. Items(p) |-> [w |-> "item", k |-> i, plain |-> p.iter]] ELSE <<>>)
  \o (IF p.out = "raise" \/ (p.out = "stream" /\ p.breakat > 0) THEN <<>> ELSE [i \in 1 .. Len(Tasks(p)) |-> [w |-> "task", k |-> i, plain |-> p.tasks[i]]])
Fails(p) == IF p.out = "raise" THEN p.reraise ELSE IF p.out = "stream" /\ p.breakat > 0 THEN TRUE ELSE p.failing > 0
Body(p) == CASE p.out = "value" -> <<"value">> [] p.out = "raise" -> <<"handled">> [] OTHER -> [i \in 1 .. (IF p.breakat > 0 THEN p.breakat - 1 ELSE p.items) |-> ToString(i)]

InitState(cfg) == [prog |-> cfg.reqs, st |-> [i \in 1 .. Len(cfg.reqs) |-> Stages(cfg.reqs[i])], at |-> [i \in 1 .. Len(cfg.reqs) |-> 0], busy |-> {}, over |-> {}]
Running(s) == {r \in s.busy : TRUE}
Checks(s, e) ==
  CASE e.t = "begin" ->
         <<<<"one-step-at-a-time", e.r \notin s.busy /\ e.r \notin s.over>>,
           <<"next-step", s.at[e.r] < Len(s.st[e.r]) /\ s.st[e.r][s.at[e.r] + 1].w = e.w /\ s.st[e.r][s.at[e.r] + 1].k = e.k>>,
           <<"blocking-code-off-the-loop-async-code-on-it", s.at[e.r] < Len(s.st[e.r]) => e.loop = ~s.st[e.r][s.at[e.r] + 1].plain>>,
           <<"sees-the-context-of-its-caller", e.ctx = e.r>>,
           <<"its-own-arguments", e.args>>>>
    [] e.t = "end" -> <<<<"a-step-is-running", e.r \in s.busy>>>>
    [] e.t = "ping" -> <<<<"the-loop-keeps-serving", e.ok>>>>
    [] e.t = "over" ->
         <<<<"every-step-ran", e.r \notin s.busy /\ s.at[e.r] = Len(s.st[e.r])>>,
           <<"failures-come-back", e.exc = Fails(s.prog[e.r])>>,
           <<"the-very-failure", e.same>>,
           <<"results-in-order-unchanged", e.body = Body(s.prog[e.r])>>>>
    [] e.t = "done" -> <<<<"everything-is-over", Cardinality(s.over) = Len(s.prog)>>>>
Apply(s, e) ==
  CASE e.t = "begin" -> [s EXCEPT !.busy = @ \cup {e.r}, !.at[e.r] = @ + 1]
    [] e.t = "end" -> [s EXCEPT !.busy = @ \ {e.r}]
    [] e.t = "over" -> [s EXCEPT !.over = @ \cup {e.r}]
    [] OTHER -> s
=============================================================================

-------------------------------- MODULE Lifespan --------------------------------
(* Lifespans of one application and the connections served within them.        *)
(* cfg: up, down = number of startup and shutdown steps; cycles = one entry    *)
(* per lifespan: failat = "" | "up" | "yield" (an unsupported state) | "value" *)
(* (no mapping) | "wait" (the server's receive fails) | "down"; swallow = the  *)
(* lifespan suppresses what is raised where it yielded; step, yields = sequence of <<key, value>> (or none = TRUE: yields nothing). *)
(* Events: recv(type) = the application took a message of the server;          *)
(* up(i), down(i) = a step begins; fin = it ended well; fail = it raised;      *)
(* lost = the server failed while the application waited for the shutdown;     *)
(* told(type, text) = a message to the server, text = the failing step's       *)
(* message and a traceback are in it; over(exc, same) = the application        *)
(* returned, exc = name of what it raised, same = the very object raised;      *)
(* req(kind, sees, own, log): a connection: sees = its state, own = what it    *)
(* reads after adding to it, log = the entries of a list in the state to which *)
(* each connection appends its number n; next = another lifespan begins.       *)
EXTENDS Str

InitState(cfg) == [c |-> cfg, cyc |-> 1, ph |-> "idle", i |-> 0, busy |-> FALSE, log |-> <<>>, told |-> 0, taken |-> 0]
Cyc(s) == s.c.cycles[s.cyc]
FailsAt(s, w, i) == IF w = "yield" THEN Cyc(s).failat \in {"yield", "value"} ELSE Cyc(s).failat = w /\ Cyc(s).step = i
(* what the next message has to be once the steps are behind us *)
UpDone(s) == s.ph = "up" /\ ~s.busy /\ s.i = s.c.up
DownDone(s) == s.ph = "down" /\ ~s.busy /\ s.i = s.c.down
StateOf(s) == IF Cyc(s).none THEN <<>> ELSE Cyc(s).yields

Checks(s, e) ==
  CASE e.t = "recv" ->
         <<<<"takes-startup-then-shutdown", IF e.type = "lifespan.startup" THEN s.ph = "idle" ELSE e.type = "lifespan.shutdown" /\ s.ph = "serving">>>>
    [] e.t = "up" -> <<<<"startup-steps-between-the-request-and-the-report", s.ph = "up">>,
                       <<"startup-steps-in-order-once", ~s.busy /\ e.i = s.i + 1 /\ e.i <= s.c.up>>>>
    [] e.t = "down" -> <<<<"shutdown-steps-between-the-request-and-the-report", s.ph = "down">>,
                         <<"shutdown-steps-in-order-once", ~s.busy /\ e.i = s.i + 1 /\ e.i <= s.c.down>>>>
    [] e.t = "fin" -> <<<<"a-step-is-running", s.busy>>>>
    [] e.t = "fail" -> <<<<"a-step-is-running", s.busy>>>>
    [] e.t = "lost" -> <<<<"while-serving", s.ph = "serving">>>>
    [] e.t = "told" ->
         CASE e.type = "lifespan.startup.complete" -> <<<<"startup-complete-after-every-step", UpDone(s) /\ ~FailsAt(s, "yield", 0)>>>>
           [] e.type = "lifespan.startup.failed" ->
                <<<<"startup-failed-iff-it-failed", s.ph = "upfailed" \/ (UpDone(s) /\ FailsAt(s, "yield", 0))>>, <<"failure-with-its-traceback", e.text \/ Cyc(s).swallow>>>>
           [] e.type = "lifespan.shutdown.complete" -> <<<<"shutdown-complete-after-every-step", DownDone(s) /\ Cyc(s).failat # "wait">>>>
           [] e.type = "lifespan.shutdown.failed" -> <<<<"shutdown-failed-iff-it-failed", s.ph = "downfailed" \/ (Cyc(s).failat = "wait" /\ s.ph = "down" /\ ~s.busy)>>, <<"failure-with-its-traceback", e.text>>>>
           [] OTHER -> <<<<"a-lifespan-message", FALSE>>>>
    [] e.t = "over" ->
         <<<<"reported-before-returning", s.ph \in {"stopped", "failed"}>>,
           <<"failures-are-raised-again", (e.exc # "") = (s.ph = "failed") \/ (s.ph = "failed" /\ Cyc(s).swallow)>>,
           <<"the-very-failure", e.exc # "" => e.same>>>>
    [] e.t = "req" ->
         <<<<"sees-what-the-lifespan-yielded", e.sees = (IF s.ph = "serving" THEN StateOf(s) ELSE <<>>)>>,
           <<"can-add-to-its-own-state", e.own>>,
           <<"copy-is-shallow", s.ph = "serving" /\ StateOf(s) # <<>> => e.log = Append(s.log, e.n)>>>>
    [] e.t \in {"next", "end"} -> <<<<"lifespan-was-over", s.ph = "over">>>>
Apply(s, e) ==
  CASE e.t = "recv" -> [s EXCEPT !.ph = IF e.type = "lifespan.startup" THEN "up" ELSE "down", !.i = 0]
    [] e.t \in {"up", "down"} -> [s EXCEPT !.i = e.i, !.busy = TRUE]
    [] e.t = "fin" -> [s EXCEPT !.busy = FALSE]
    [] e.t = "fail" -> [s EXCEPT !.busy = FALSE, !.ph = IF @ = "up" THEN "upfailed" ELSE "downfailed"]
    [] e.t = "lost" -> [s EXCEPT !.ph = "down", !.i = 0]
    [] e.t = "told" -> [s EXCEPT !.ph = CASE e.type = "lifespan.startup.complete" -> "serving" [] e.type = "lifespan.shutdown.complete" -> "stopped" [] OTHER -> "failed"]
    [] e.t = "over" -> [s EXCEPT !.ph = "over"]
    [] e.t = "req" -> IF s.ph = "serving" /\ StateOf(s) # <<>> THEN [s EXCEPT !.log = Append(@, e.n)] ELSE s
    [] e.t = "end" -> s
    [] e.t = "next" -> [s EXCEPT !.cyc = @ + 1, !.ph = "idle", !.i = 0, !.log = <<>>]
=============================================================================

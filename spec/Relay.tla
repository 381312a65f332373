------------------------------- MODULE Relay -------------------------------
(* A stack of function middleware (BaseHTTPMiddleware) around an application. *)
(* The application's progress is what it has emitted and whether it still      *)
(* runs; every layer is a function from the view of the response behind it to  *)
(* the view it presents in front of it.  What the server is told must at any   *)
(* moment be a part of the outermost view, and all of it once nothing moves    *)
(* and the server is not holding a send.  A response may also be completed by    *)
(* telling the server which file to send, and debug information may go ahead.     *)
EXTENDS Str

View0 == [st |-> FALSE, status |-> 0, hdr |-> "", body |-> "", fin |-> FALSE, file |-> FALSE, dbg |-> FALSE, exc |-> "", ended |-> FALSE]
Own(status, body) == [View0 EXCEPT !.st = TRUE, !.status = status, !.hdr = "own", !.body = body, !.fin = TRUE, !.ended = TRUE]

(* the application as the innermost layer sees it *)
AppView(a) ==
  [st |-> a.st, status |-> a.status, hdr |-> a.hdr, body |-> a.body, fin |-> a.fin, file |-> a.file, dbg |-> a.dbg,
   exc |-> IF a.state = "raised" THEN "AppErr" ELSE "",
   ended |-> a.state \in {"done", "raised", "cancelled"}]

(* behind a layer something ended without any response *)
Base(v) == IF ~v.st /\ v.ended /\ v.exc = "" THEN [v EXCEPT !.exc = "RuntimeError"] ELSE v
Failed(v) == [View0 EXCEPT !.exc = v.exc, !.ended = v.ended]

Layer(k, w) ==
  LET v == Base(w) IN
  CASE k \in {"pass", "bg"} -> v
    [] k = "header"  -> [v EXCEPT !.hdr = IF v.st THEN @ \o "+h" ELSE @]
    [] k = "upper"   -> [v EXCEPT !.body = Upper(@)]
    [] k = "answer"  -> Own(299, "mw")
    [] k = "replace" -> IF v.st THEN [Own(297, "re") EXCEPT !.exc = v.exc, !.ended = v.ended] ELSE v
    [] k = "catch"   -> IF ~v.st /\ v.exc # "" THEN Own(298, "caught") ELSE v
    [] k = "consume" -> IF v.fin THEN [v EXCEPT !.dbg = FALSE]
                        ELSE IF v.exc # "" THEN Failed(v) ELSE View0
    [] k = "raise"   -> IF v.st THEN [View0 EXCEPT !.exc = "Boom", !.ended = TRUE] ELSE v
    [] k = "early"   -> [View0 EXCEPT !.exc = "Boom", !.ended = TRUE]

RECURSIVE ViewAt(_, _, _)
ViewAt(ls, i, a) == IF i > Len(ls) THEN AppView(a) ELSE Layer(ls[i], ViewAt(ls, i + 1, a))
Outer(ls, a) == ViewAt(ls, 1, a)

Reaches(ls) == \A i \in 1 .. Len(ls) : ls[i] \notin {"answer", "early"}

-----------------------------------------------------------------------------
App0 == [state |-> "none", st |-> FALSE, status |-> 0, hdr |-> "", body |-> "", fin |-> FALSE, file |-> FALSE, dbg |-> FALSE, out |-> 0]
Told0 == [st |-> FALSE, status |-> 0, hdr |-> "", body |-> "", fin |-> FALSE, file |-> FALSE, dbg |-> FALSE]

InitState(cfg) == [ls |-> cfg.layers, a |-> App0, told |-> Told0, held |-> 0, bgs |-> <<>>, lost |-> FALSE, over |-> FALSE]

Emit(a, m) ==
  IF m.ty = "http.response.start" THEN [a EXCEPT !.st = TRUE, !.status = m.status, !.hdr = m.hdr]
  ELSE IF m.ty = "http.response.debug" THEN [a EXCEPT !.dbg = TRUE]
  ELSE [a EXCEPT !.body = @ \o m.body, !.fin = ~m.more, !.file = m.ty = "http.response.pathsend"]
Tell(w, m) ==
  IF m.ty = "http.response.start" THEN [w EXCEPT !.st = TRUE, !.status = m.status, !.hdr = m.hdr]
  ELSE IF m.ty = "http.response.debug" THEN [w EXCEPT !.dbg = TRUE]
  ELSE [w EXCEPT !.body = @ \o m.body, !.fin = ~m.more, !.file = m.ty = "http.response.pathsend"]

(* a layer that adds background work runs it if it gets to send its response *)
BgIndexes(ls) == {i \in 1 .. Len(ls) : ls[i] = "bg"}
Transparent(k) == k \in {"pass", "bg", "header", "upper", "catch"}
BgMust(s) == {i \in BgIndexes(s.ls) : ViewAt(s.ls, i, s.a).fin /\ (\A j \in 1 .. i - 1 : Transparent(s.ls[j]))}

(* a layer and the application behind it fail at the same time: the caller may see both *)
TwoFailures(s) == s.a.state = "raised" /\ \E i \in 1 .. Len(s.ls) : s.ls[i] = "raise"

Checks(s, e) ==
  LET v == Outer(s.ls, s.a) IN
  CASE e.t = "appstart" -> <<<<"application-reached-once", s.a.state = "none">>,
                             <<"application-not-reached-past-an-answering-layer", Reaches(s.ls)>>>>
    [] e.t = "emit" -> <<<<"running", s.a.state = "running">>>>
    [] e.t = "sent" -> <<>>
    [] e.t = "append" -> <<<<"was-running", s.a.state = "running">>,
                           <<"cancelled-only-by-a-layer-that-failed",
                              e.how = "cancelled" => s.lost \/ \E i \in 1 .. Len(s.ls) : s.ls[i] = "raise">>>>
    [] e.t = "appbg" -> <<<<"after-the-response", s.a.fin>>>>
    [] e.t = "told" /\ s.lost -> <<<<"nothing-sent-after-the-connection-was-lost", FALSE>>>>
    [] e.t = "told" ->
         IF e.m.ty = "http.response.start"
         THEN <<<<"one-start", ~s.told.st /\ ~s.over>>,
                <<"debug-information-comes-first", s.told.dbg = v.dbg>>,
                <<"start-is-the-one-presented", v.st /\ v.status = e.m.status /\ v.hdr = e.m.hdr>>>>
         ELSE IF e.m.ty = "http.response.debug" THEN <<<<"debug-information-once-before-the-start", v.st /\ v.dbg /\ ~s.told.st /\ ~s.told.dbg /\ ~s.over>>>>
         ELSE <<<<"body-message", e.m.ty = IF v.file /\ ~e.m.more THEN "http.response.pathsend" ELSE "http.response.body">>,
                <<"body-within-a-started-unfinished-response", s.told.st /\ ~s.told.fin /\ ~s.over>>,
                <<"body-is-a-part-of-what-is-presented", StartsWith(v.body, s.told.body \o e.m.body)>>,
                <<"complete-only-if-the-response-is", ~e.m.more => (v.fin /\ v.body = s.told.body \o e.m.body)>>>>
    [] e.t = "release" -> <<>>
    [] e.t = "mwbg" -> <<<<"once", e.i \notin SeqSet(s.bgs)>>,
                         <<"background-after-the-layers-response", ViewAt(s.ls, e.i, s.a).fin>>>>
    [] e.t = "lost" -> <<>>
    [] e.t = "quiet" /\ s.lost -> <<<<"a-lost-connection-ends-the-request", s.over>>>>
    [] e.t = "ret" /\ s.lost -> <<<<"application-finished-before-return", s.a.state # "running">>,
                                 <<"lost-connection-seen-by-the-caller", e.exc # "" /\ e.exc \in {"OSError", "ClientDisconnect", v.exc}>>>>
    [] e.t = "quiet" ->
         <<<<"everything-presentable-has-been-sent",
              s.held = 0 => (s.told.st = v.st /\ s.told.body = v.body /\ s.told.fin = v.fin)>>,
           <<"application-is-started", Reaches(s.ls) => s.a.state # "none">>,
           <<"application-blocked-only-by-the-server", s.held = 0 => s.a.out = 0>>,
           <<"returns-exactly-when-all-is-over", s.held = 0 => (s.over = v.ended)>>>>
    [] e.t = "ret" ->
         <<<<"application-finished-before-return", s.a.state # "running">>,
           <<"everything-over-before-return", v.ended>>,
           <<"error-seen-by-the-caller", e.exc = v.exc \/ (e.exc = "ExceptionGroup" /\ TwoFailures(s))>>,
           <<"it-is-the-same-error-object", e.same>>,
           <<"background-work-done", BgMust(s) \subseteq SeqSet(s.bgs)>>,
           <<"response-complete-unless-failed", v.exc = "" => s.told.fin>>>>

Apply(s, e) ==
  CASE e.t = "appstart" -> [s EXCEPT !.a.state = "running"]
    [] e.t = "emit" -> [s EXCEPT !.a = [Emit(s.a, e.m) EXCEPT !.out = 1]]
    [] e.t = "sent" -> [s EXCEPT !.a.out = 0]
    [] e.t = "append" -> [s EXCEPT !.a.state = e.how, !.a.out = 0]
    [] e.t = "appbg" -> s
    [] e.t = "told" -> [s EXCEPT !.told = Tell(s.told, e.m), !.held = IF e.hold THEN 1 ELSE @]
    [] e.t = "release" -> [s EXCEPT !.held = 0]
    [] e.t = "lost" -> [s EXCEPT !.lost = TRUE, !.held = 0]
    [] e.t = "mwbg" -> [s EXCEPT !.bgs = Append(@, e.i)]
    [] e.t = "ret" -> [s EXCEPT !.over = TRUE]
    [] e.t = "quiet" -> s
=============================================================================

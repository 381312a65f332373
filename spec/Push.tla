-------------------------------- MODULE Push --------------------------------
(* Server push.  While it makes its response an application promises the      *)
(* client other resources; each promise is a message of its own to the server, *)
(* carrying what the request itself says about what the client accepts.  It    *)
(* passes by the response on its way through the middleware, but never comes   *)
(* after a part of the response which the application sent later.              *)
EXTENDS Str

Copied == {"accept", "accept-encoding", "accept-language", "cache-control", "user-agent"}

Values(hs, n) == LET k == SelectSeq(hs, LAMBDA h : h[1] = n) IN [i \in 1 .. Len(k) |-> k[i][2]]
Names(hs) == {hs[i][1] : i \in 1 .. Len(hs)}
(* the headers of a promise for a request with headers hs *)
Promise(hs, got) == Names(got) \subseteq Copied /\ \A n \in Copied : Values(got, n) = Values(hs, n)

(* cfg.reqs: ext (the server takes promises), headers.  Of each request: the paths promised,  *)
(* how many promises the server has got, and how many were made before the start and the end  *)
Req0(c) == [ext |-> c.ext, hs |-> c.headers, made |-> <<>>, got |-> 0, body |-> "",
            st |-> FALSE, before |-> 0, last |-> FALSE, all |-> 0, started |-> FALSE, fin |-> FALSE, over |-> FALSE]
InitState(cfg) == [r \in 1 .. Len(cfg.reqs) |-> Req0(cfg.reqs[r])]

Due(q, n) == q.ext => q.got >= n

Checks(s, e) ==
  LET q == s[e.r] IN
  CASE e.t = "push" -> <<>>
    [] e.t = "pushed" -> <<<<"promising-never-fails", e.exc = "">>>>
    [] e.t = "emit" -> <<>>
    [] e.t = "told" /\ e.ty = "http.response.push" ->
         <<<<"promises-only-to-a-server-that-takes-them", q.ext>>,
           <<"each-promise-once-and-in-order", q.got < Len(q.made) /\ q.made[q.got + 1] = e.path>>,
           <<"promise-has-the-headers-of-its-request", Promise(q.hs, e.headers)>>,
           <<"no-promise-after-the-response", ~q.fin>>>>
    [] e.t = "told" /\ e.ty = "http.response.start" ->
         <<<<"response-is-the-application's", q.st /\ ~q.started>>,
           <<"promises-made-before-the-start-come-before-it", Due(q, q.before)>>>>
    [] e.t = "told" ->
         <<<<"is-a-part-of-the-response", e.ty = "http.response.body" /\ q.started /\ ~q.fin>>,
           <<"complete-only-after-all-promises", e.last => q.last /\ Due(q, q.all)>>>>
    [] e.t = "ret" ->
         <<<<"response-is-sent", q.fin /\ e.exc = "">>,
           <<"response-is-not-changed-by-promises", e.body = q.body>>,
           <<"every-promise-is-kept", Due(q, Len(q.made))>>>>

Apply(s, e) ==
  LET q == s[e.r] IN
  CASE e.t = "push" -> [s EXCEPT ![e.r].made = Append(@, e.path)]
    [] e.t = "emit" /\ e.ty = "http.response.start" -> [s EXCEPT ![e.r].st = TRUE, ![e.r].before = Len(q.made)]
    [] e.t = "emit" -> [s EXCEPT ![e.r].body = @ \o e.body, ![e.r].last = e.last, ![e.r].all = Len(q.made)]
    [] e.t = "told" /\ e.ty = "http.response.push" -> [s EXCEPT ![e.r].got = @ + 1]
    [] e.t = "told" /\ e.ty = "http.response.start" -> [s EXCEPT ![e.r].started = TRUE]
    [] e.t = "told" -> [s EXCEPT ![e.r].fin = e.last]
    [] e.t = "ret" -> [s EXCEPT ![e.r].over = TRUE]
    [] OTHER -> s
=============================================================================

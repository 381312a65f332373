--------------------------------- MODULE Client ---------------------------------
(* The test client between a caller and an application: requests, websocket     *)
(* sessions and the lifespan of the application around a client context.        *)
(* cfg: raise (are application errors raised to the caller), root, client.      *)
(* Caller side: enter / entered(raised, same), exit / exited(raised, same);     *)
(* ask(req) / result(...); ask(req) of a websocket / opened | refused | denied  *)
(* | failed; csend(m) / crecv(m) | closed(code, reason) | cfail; leave /        *)
(* left(raised, same).  Application side: up / upped(how), down / downed(how);  *)
(* scope(saw), body(body, more), gone, start(status, headers),                  *)
(* data(body, more), info(name) (debug information), raise; arecv(m), asend(m). *)
(* A message m: [ty, kind, data, code, reason]; a send is recorded before it    *)
(* happens and a receipt afterwards, so their order in the trace is causal.     *)
EXTENDS Str

NoX == [ws |-> FALSE, busy |-> FALSE, req |-> "none", got |-> "", ended |-> FALSE, start |-> <<>>, data |-> "", fin |-> FALSE, exc |-> FALSE,
        excleave |-> FALSE, leaving |-> FALSE, open |-> FALSE, over |-> FALSE, toapp |-> <<>>, tocl |-> <<>>, info |-> "", seen |-> FALSE]
InitState(cfg) == [c |-> cfg, phase |-> "out", ups |-> 0, downs |-> 0, how |-> "", state |-> "", x |-> NoX]

Msg(ty, kind, data, code, reason) == [ty |-> ty, kind |-> kind, data |-> data, code |-> code, reason |-> reason]
Connect == Msg("connect", "", "", 0, "")
Gone == Msg("disconnect", "", "", 1000, "None")

ByName(hs, n) == [i \in 1 .. Len(SelectSeq(hs, LAMBDA h : h[1] = n)) |-> SelectSeq(hs, LAMBDA h : h[1] = n)[i][2]]
Names(hs) == {hs[i][1] : i \in 1 .. Len(hs)}
ByDefault == {"host", "cookie", "accept", "accept-encoding", "connection", "user-agent", "content-length", "content-type", "transfer-encoding", "sec-websocket-key", "sec-websocket-version", "sec-websocket-protocol"}
Once(req, hs) == \A n \in ByDefault \ Names(req.headers) : Len(ByName(hs, n)) <= 1
Faithful(req, hs) == (\A n \in Names(req.headers) : ByName(hs, n) = ByName(req.headers, n)) /\ Names(hs) \subseteq (Names(req.headers) \cup ByDefault)

(* the request the application is to see next: a redirect is followed, if the caller wants that, once the response is complete *)
Turn(x) == x.seen /\ x.fin /\ x.req.then # <<>>
Now(x) == IF Turn(x) THEN x.req.then[1] ELSE x.req

Chunks(q) == Concat([i \in 1 .. Len(q) |-> q[i].data])
Code(how) == how # "complete"

Checks(s, e) ==
  LET x == s.x IN
  CASE e.t = "up" -> <<<<"startup-once-per-context", s.phase = "entering" /\ s.ups = 0>>>>
    [] e.t = "entered" -> <<<<"context-entered-after-startup", s.ups = 1 /\ s.how # "">>, <<"failed-startup-is-raised", e.raised = (s.how # "complete")>>, <<"same-error", e.same>>>>
    [] e.t = "down" -> <<<<"shutdown-once-per-context", s.phase = "leaving" /\ s.downs = 0>>>>
    [] e.t = "exited" -> <<<<"context-left-after-shutdown", s.downs = 1 /\ s.how # "">>, <<"failed-shutdown-is-raised", s.how # "reported" => e.raised = (s.how # "complete")>>, <<"same-error", e.same>>>>
    [] e.t = "scope" -> LET q == Now(x) IN
         <<<<"application-called-once-per-request", x.busy /\ (~x.seen \/ Turn(x))>>, <<"method", e.saw.method = q.method>>, <<"path", e.saw.path = q.path>>, <<"raw-path", e.saw.raw = q.raw>>,
           <<"query", e.saw.query = q.query>>, <<"scheme", e.saw.scheme = q.scheme>>, <<"server", e.saw.server = q.server>>, <<"root-path", e.saw.root = s.c.root>>, <<"client", e.saw.client = s.c.client>>,
           <<"headers", Faithful(q, e.saw.headers)>>, <<"defaults-once", Once(q, e.saw.headers)>>, <<"host-header", ByName(e.saw.headers, "host") = <<q.host>>>>, <<"subprotocols", e.saw.subs = q.subs>>,
           <<"lifespan-state", s.phase = "in" => e.saw.state = s.state>>>>
    [] e.t = "body" -> <<<<"body-delivered", IF e.more THEN StartsWith(x.req.body, x.got \o e.body) ELSE x.req.body = x.got \o e.body>>, <<"body-ends-once", ~x.ended>>>>
    [] e.t = "gone" -> <<<<"no-disconnect-before-the-response-is-complete", x.fin>>>>
    [] e.t = "result" ->
         IF x.exc /\ s.c.raise THEN <<<<"error-is-raised", e.how = "raise" /\ e.same>>>>
         ELSE IF x.exc /\ x.start = <<>> THEN <<<<"error-becomes-500", e.how = "response" /\ e.status = 500 /\ e.body = "">>>>
         ELSE <<<<"response-returned", e.how = "response">>, <<"application-was-called", x.seen>>, <<"redirects-are-followed", x.req.then = <<>>>>, <<"status", e.how = "response" => <<e.status>> = <<x.start[1]>>>>, <<"headers", e.how = "response" => e.headers = x.start[2]>>,
                <<"body", e.how = "response" => IF x.req.method = "HEAD" THEN e.body = "" ELSE e.body = x.data>>, <<"debug-information", e.info = x.info>>>>
    [] e.t = "arecv" -> <<<<"messages-to-the-application-in-order", x.toapp # <<>> /\ e.m = x.toapp[1]>>>>
    [] e.t = "opened" -> <<<<"opened-when-accepted", x.tocl # <<>> /\ x.tocl[1].ty = "accept">>, <<"subprotocol-and-headers", x.tocl # <<>> => <<e.kind, e.data>> = <<x.tocl[1].kind, x.tocl[1].data>>>>>>
    [] e.t = "refused" -> <<<<"refused-when-closed", x.tocl # <<>> /\ x.tocl[1].ty = "close">>, <<"code-and-reason", x.tocl # <<>> => <<e.code, e.reason>> = <<x.tocl[1].code, x.tocl[1].reason>>>>>>
    [] e.t = "denied" -> <<<<"denied-when-denied", x.tocl # <<>> /\ x.tocl[1].ty = "deny">>, <<"status-and-headers", x.tocl # <<>> => <<e.code, e.data>> = <<x.tocl[1].code, x.tocl[1].data>>>>,
                           <<"denial-body", x.tocl # <<>> => e.body = Chunks(Tail(x.tocl))>>>>
    [] e.t = "failed" -> <<<<"error-is-raised", x.exc /\ e.same>>>>
    [] e.t = "crecv" -> <<<<"messages-to-the-caller-in-order", x.tocl # <<>> /\ x.tocl[1].ty = "data" /\ e.m = x.tocl[1]>>>>
    [] e.t = "closed" -> <<<<"disconnect-when-closed", x.tocl # <<>> /\ x.tocl[1].ty = "close">>, <<"code-and-reason", x.tocl # <<>> => <<e.code, e.reason>> = <<x.tocl[1].code, x.tocl[1].reason>>>>>>
    [] e.t = "cfail" -> <<<<"only-a-failed-application-fails-the-caller", x.exc>>>>
    [] e.t = "left" -> <<<<"error-is-raised", (x.excleave => e.raised) /\ (e.raised => x.exc /\ e.same)>>>>
    [] e.t = "stuck" -> <<<<"every-call-returns", FALSE>>>>
    [] OTHER -> <<>>

Apply(s, e) ==
  CASE e.t = "enter" -> [s EXCEPT !.phase = "entering", !.ups = 0, !.downs = 0, !.how = ""]
    [] e.t = "up" -> [s EXCEPT !.ups = @ + 1]
    [] e.t = "upped" -> [s EXCEPT !.how = e.how, !.state = e.state]
    [] e.t = "entered" -> [s EXCEPT !.phase = IF e.raised THEN "out" ELSE "in"]
    [] e.t = "exit" -> [s EXCEPT !.phase = "leaving", !.how = ""]
    [] e.t = "down" -> [s EXCEPT !.downs = @ + 1]
    [] e.t = "downed" -> [s EXCEPT !.how = e.how]
    [] e.t = "exited" -> [s EXCEPT !.phase = "out"]
    [] e.t = "ask" -> [s EXCEPT !.x = [NoX EXCEPT !.ws = e.ws, !.busy = TRUE, !.req = e.req, !.toapp = IF e.ws THEN <<Connect>> ELSE <<>>]]
    [] e.t = "scope" -> IF Turn(s.x) THEN [s EXCEPT !.x = [NoX EXCEPT !.busy = TRUE, !.seen = TRUE, !.req = s.x.req.then[1]]] ELSE [s EXCEPT !.x.seen = TRUE]
    [] e.t = "body" -> [s EXCEPT !.x.got = @ \o e.body, !.x.ended = ~e.more]
    [] e.t = "start" -> [s EXCEPT !.x.start = <<e.status, e.headers>>]
    [] e.t = "data" -> [s EXCEPT !.x.data = @ \o e.body, !.x.fin = ~e.more]
    [] e.t = "info" -> [s EXCEPT !.x.info = e.name]
    [] e.t = "raise" -> [s EXCEPT !.x.exc = TRUE, !.x.excleave = ~s.x.leaving]
    [] e.t = "result" -> [s EXCEPT !.x.busy = FALSE]
    [] e.t = "arecv" -> [s EXCEPT !.x.toapp = IF @ = <<>> THEN @ ELSE Tail(@)]
    [] e.t = "csend" -> [s EXCEPT !.x.toapp = Append(@, e.m)]
    [] e.t = "asend" -> [s EXCEPT !.x.tocl = Append(@, e.m)]
    [] e.t \in {"opened", "crecv", "closed", "refused"} -> [s EXCEPT !.x.tocl = IF @ = <<>> THEN @ ELSE Tail(@), !.x.open = (e.t # "refused")]
    [] e.t = "leave" -> [s EXCEPT !.x.toapp = Append(@, Gone), !.x.leaving = TRUE]
    [] e.t = "left" -> [s EXCEPT !.x.busy = FALSE]
    [] OTHER -> s
=============================================================================

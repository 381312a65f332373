---------------------------------- MODULE Wsgi ----------------------------------
(* A WSGI application behind the bridge.  cfg: the request as the server gives   *)
(* it: method, root, path (each as the characters of its UTF-8 bytes), query,    *)
(* headers (<<name, value>>...), body, scheme, server, client, version.          *)
(* Events: environ(saw, loop) the application is called; start(status, headers,  *)
(* report) it calls start_response (report: with exc_info); chunk(data) it gives *)
(* a chunk; raise; closed its iterable is closed; sent(kind, status, headers,    *)
(* data, more) a message to the client; over(exc): "none", "raised", "reported"  *)
(* or "other".  What the application does is recorded before it does it.         *)
EXTENDS Str

InitState(cfg) == [c |-> cfg, called |-> FALSE, started |-> FALSE, started2 |-> FALSE, out |-> FALSE, queue |-> <<>>, final |-> FALSE, raised |-> FALSE, report |-> FALSE, lastly |-> FALSE, given |-> FALSE, closed |-> 0]

Under(t) == Fold(LAMBDA a, i : a \o (IF At(t, i) = "-" THEN "_" ELSE At(t, i)), "", Upto1(Len(t)))
Key(n) == IF n \in {"content-length", "content-type"} THEN Upper(Under(n)) ELSE "HTTP_" \o Upper(Under(n))
Environ(hs) ==
  LET ks == [i \in 1 .. Len(hs) |-> Key(hs[i][1])]
      Vals(k) == [j \in 1 .. Len(SelectSeq(Upto1(Len(hs)), LAMBDA i : ks[i] = k)) |-> hs[SelectSeq(Upto1(Len(hs)), LAMBDA i : ks[i] = k)[j]][2]]
  IN {<<k, Join(Vals(k), ",")>> : k \in {ks[i] : i \in 1 .. Len(hs)}}
Rest(root, path) == IF path = root \/ StartsWith(path, root \o "/") THEN From(path, Len(root) + 1) ELSE path
Strip(t) == The({TrimV(x, TRUE, TRUE) : x \in {t}})

Start(e) == [kind |-> "start", status |-> e.status, headers |-> [i \in 1 .. Len(e.headers) |-> <<Lower(Strip(e.headers[i][1])), Strip(e.headers[i][2])>>], data |-> "", more |-> TRUE]
Body(d) == [kind |-> "body", status |-> 0, headers |-> <<>>, data |-> d, more |-> TRUE]
Sent(e) == [kind |-> e.kind, status |-> e.status, headers |-> e.headers, data |-> e.data, more |-> e.more]

Checks(s, e) ==
  CASE e.t = "environ" ->
         <<<<"called-once", ~s.called>>, <<"method", e.saw.method = s.c.method>>, <<"script-name", e.saw.script = s.c.root>>, <<"path-info", e.saw.path = Rest(s.c.root, s.c.path)>>, <<"query-string", e.saw.query = s.c.query>>,
           <<"headers", SeqSet(e.saw.headers) = Environ(s.c.headers)>>, <<"headers-once-each", Cardinality(SeqSet(e.saw.headers)) = Len(e.saw.headers)>>, <<"body", e.saw.body = s.c.body>>, <<"server", e.saw.server = s.c.server>>,
           <<"scheme", e.saw.scheme = s.c.scheme>>, <<"protocol", e.saw.protocol = "HTTP/" \o s.c.version>>, <<"client", e.saw.client = s.c.client>>, <<"off-the-event-loop", ~e.loop>>>>
    [] e.t = "sent" ->
         IF e.kind = "body" /\ ~e.more /\ s.lastly
         THEN <<<<"final-message-last", s.queue = <<>> >>, <<"one-final-message", ~s.final>>, <<"final-message-is-empty", e.data = "">>>>
         ELSE <<<<"only-what-the-application-gave-in-order", s.queue # <<>> /\ Sent(e) = s.queue[1]>>, <<"nothing-after-the-end", ~s.final>>, <<"one-start", e.kind = "start" => ~s.started2>>>>
    [] e.t = "closed" -> <<<<"closed-once", s.closed = 0>>>>
    [] e.t = "over" ->
         <<<<"its-own-error-propagates", s.raised <=> e.exc = "raised">>, <<"reported-error-propagates", (s.report /\ ~s.raised) <=> e.exc = "reported">>, <<"no-other-error", e.exc # "other">>,
           <<"everything-delivered", ~s.raised => s.queue = <<>> /\ s.final>>, <<"an-error-is-not-an-end", s.raised => ~s.final>>, <<"application-called", s.called>>, <<"iterable-closed", s.given => s.closed = 1>>>>
    [] OTHER -> <<>>

Apply(s, e) ==
  CASE e.t = "environ" -> [s EXCEPT !.called = TRUE]
    [] e.t = "start" -> [s EXCEPT !.started = TRUE, !.queue = IF s.started THEN @ ELSE Append(@, Start(e)), !.report = e.report]
    [] e.t = "given" -> [s EXCEPT !.given = TRUE]
    [] e.t = "chunk" -> [s EXCEPT !.queue = Append(@, Body(e.data)), !.out = TRUE]
    [] e.t = "end" -> [s EXCEPT !.lastly = TRUE]
    [] e.t = "raise" -> [s EXCEPT !.raised = TRUE]
    [] e.t = "closed" -> [s EXCEPT !.closed = @ + 1]
    [] e.t = "sent" -> IF e.kind = "body" /\ ~e.more /\ s.lastly THEN [s EXCEPT !.final = TRUE]
                       ELSE [s EXCEPT !.queue = IF @ = <<>> THEN @ ELSE Tail(@), !.started2 = @ \/ e.kind = "start"]
    [] OTHER -> s
=============================================================================

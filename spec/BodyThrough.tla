---------------------------- MODULE BodyThrough ----------------------------
(* The request body on its way through function middleware (BaseHTTPMiddleware)*)
(* to the application.  A layer may, before calling on, read the whole body    *)
(* (body, json), consume the stream to its end without keeping it (stream,     *)
(* form), poll for a disconnect (poll), or not touch it (pass); afterwards it   *)
(* may read the body (after).                                                  *)
(* Feeds are sequences of messages; every layer is a transformer of feeds, and *)
(* the trace clauses state what the application may be given at any moment.    *)
EXTENDS Str

Req(b, more) == [ty |-> "http.request", body |-> b, more |-> more]
Gone == [ty |-> "http.disconnect", body |-> "", more |-> FALSE]

Body(f) == Concat([i \in 1 .. Len(f) |-> f[i].body])
Complete(f) == \E i \in 1 .. Len(f) : f[i].ty = "http.request" /\ ~f[i].more
Cut(f) == ~Complete(f) /\ \E i \in 1 .. Len(f) : f[i].ty = "http.disconnect"
Rest(f) == SelectSeq(f, LAMBDA m : m.ty = "http.disconnect")

Whole(k) == k \in {"body", "json", "bodystream", "bodypoll"}
Drops(k) == k \in {"stream", "form"}
Blocking(k) == Whole(k) \/ Drops(k)

(* what a layer hands on, given everything in f has arrived *)
Xform(k, f) ==
  CASE Whole(k) -> IF Complete(f) THEN <<Req(Body(f), FALSE)>> \o Rest(f) ELSE Rest(f)
    [] Drops(k) -> IF Complete(f) THEN <<Req("", FALSE)>> \o Rest(f) ELSE Rest(f)
    [] OTHER -> SelectSeq(f, LAMBDA m : m.ty = "http.disconnect" \/ ~m.more \/ m.body # "")

RECURSIVE Through(_, _)
Through(ls, f) == IF ls = <<>> THEN f ELSE Through(Tail(ls), Xform(Head(ls), f))

(* the same, said of bodies: nothing survives a layer that consumed the stream *)
Dropped(ls) == \E i \in 1 .. Len(ls) : Drops(ls[i])
Effective(ls, f) == IF Dropped(ls) THEN "" ELSE Body(f)
Reads(ls) == \E i \in 1 .. Len(ls) : Blocking(ls[i])

-----------------------------------------------------------------------------
(* traces.  cfg: layers, after (per layer).  f: pushed so far; got: bytes the   *)
(* application has been given; fin: it was told the body is complete           *)
InitState(cfg) == [ls |-> cfg.layers, f |-> <<>>, started |-> FALSE, got |-> "", fin |-> FALSE,
                   gone |-> FALSE, waiting |-> FALSE, resp |-> FALSE, told |-> FALSE, over |-> FALSE]

(* the application can be given something *)
Avail(s) ==
  LET e == Effective(s.ls, s.f) IN
  \/ s.told
  \/ Rest(s.f) # <<>>
  \/ (~s.fin /\ Complete(s.f))
  \/ (~s.fin /\ ~Dropped(s.ls) /\ Len(e) > Len(s.got))

(* when layers before the application need the whole body, it starts after that *)
MayStart(s) == Reads(s.ls) => Complete(s.f)
MustFail(s) == Reads(s.ls) /\ Cut(s.f)

Checks(s, e) ==
  CASE e.t = "push" -> <<>>
    [] e.t = "read" ->    \* a layer's own read before calling on
         <<<<"layer-reads-the-body-the-layers-before-left",
             e.v = Effective(SubSeq(s.ls, 1, e.i - 1), s.f) /\ Complete(s.f)>>>>
    [] e.t = "after" ->   \* a layer's read after the call: the body, or an error, never less
         <<<<"layer-read-afterwards", e.ok => e.v = Effective(SubSeq(s.ls, 1, e.i - 1), s.f) /\ Complete(s.f)>>,
           <<"layer-that-read-the-body-has-it-still", Whole(s.ls[e.i]) => e.ok>>>>
    [] e.t = "poll" -> <<<<"poll-is-truthful", e.v => Rest(s.f) # <<>>>>>>
    [] e.t = "start" -> <<<<"application-starts-once-after-the-layers-have-read", ~s.started /\ MayStart(s)>>>>
    [] e.t = "ask" -> <<>>
    [] e.t = "give" /\ e.m.ty = "http.request" ->
         <<<<"no-body-after-its-end", ~s.fin>>,
           <<"body-in-order-and-nothing-else", StartsWith(Effective(s.ls, s.f), s.got \o e.m.body)>>,
           <<"complete-exactly-at-the-end", ~e.m.more => Complete(s.f) /\ s.got \o e.m.body = Effective(s.ls, s.f)>>,
           <<"more-is-coming-only-if-so", e.m.more => ~(Complete(s.f) /\ Dropped(s.ls))>>,
           <<"not-after-a-disconnect", ~s.gone>>>>
    [] e.t = "give" ->
         <<<<"is-a-disconnect", e.m.ty = "http.disconnect">>,
           <<"disconnect-only-if-gone-or-answered", s.resp \/ Rest(s.f) # <<>> >>,
           <<"disconnect-not-before-the-body-that-arrived",
               s.resp \/ s.fin \/ ~Complete(s.f)>>>>
    [] e.t = "resp" -> <<<<"once", ~s.resp>>>>
    [] e.t = "told" -> <<<<"complete-only-if-answered", s.resp>>>>
    [] e.t = "quiet" ->
         <<<<"application-is-not-kept-waiting", s.waiting => ~Avail(s)>>,
           <<"application-is-started", ~s.over => (s.started \/ ~MayStart(s))>>,
           <<"disconnect-while-a-layer-reads-ends-the-request", MustFail(s) => s.over>>>>
    [] e.t = "ret" ->
         <<<<"error-is-the-disconnect", MustFail(s) <=> e.exc = "ClientDisconnect">>,
           <<"no-other-error", e.exc \in {"", "ClientDisconnect"}>>,
           <<"answered-unless-failed", e.exc = "" => s.told>>>>

Apply(s, e) ==
  CASE e.t = "push" -> [s EXCEPT !.f = Append(@, e.m)]
    [] e.t = "start" -> [s EXCEPT !.started = TRUE]
    [] e.t = "ask" -> [s EXCEPT !.waiting = TRUE]
    [] e.t = "give" /\ e.m.ty = "http.request" ->
         [s EXCEPT !.waiting = FALSE, !.got = @ \o e.m.body, !.fin = ~e.m.more]
    [] e.t = "give" -> [s EXCEPT !.waiting = FALSE, !.gone = TRUE]
    [] e.t = "resp" -> [s EXCEPT !.resp = TRUE]
    [] e.t = "told" -> [s EXCEPT !.told = TRUE]
    [] e.t = "ret" -> [s EXCEPT !.over = TRUE]
    [] OTHER -> s
=============================================================================

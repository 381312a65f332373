------------------------------ MODULE WebSocket ------------------------------
(* The WebSocket session object an application is given: a two-sided protocol *)
(* automaton.  cs is what the application has seen of the client, as is what   *)
(* it has already told the server.  Operations of the application may overlap  *)
(* (several tasks share one session), so every call in progress carries what   *)
(* it must do next:                                                            *)
(*    recv  call the server's receive()                                        *)
(*    emit  hand message m to the server's send()                              *)
(*    ack   wait for the server's send() to finish                             *)
(*    ret   finish with result r                                               *)
EXTENDS Str

Absent == "~"
Msg(ty) == [ty |-> ty, text |-> Absent, bytes |-> Absent, code |-> Absent, reason |-> "",
            sub |-> Absent, hdrs |-> "[]", more |-> "F", status |-> Absent, body |-> ""]

(* what may be told to the server in each state of the session, and what it    *)
(* makes of it                                                                 *)
Legal(as, m) ==
  \/ as = "CONNECTING" /\ m.ty \in {"websocket.accept", "websocket.close", "websocket.http.response.start"}
  \/ as = "CONNECTED"  /\ m.ty \in {"websocket.send", "websocket.close"}
  \/ as = "RESPONSE"   /\ m.ty = "websocket.http.response.body"

AfterEmit(as, m) ==
  CASE m.ty = "websocket.accept" -> "CONNECTED"
    [] m.ty = "websocket.close"  -> "DISCONNECTED"
    [] m.ty = "websocket.http.response.start" -> "RESPONSE"
    [] m.ty = "websocket.http.response.body" /\ m.more = "F" -> "DISCONNECTED"
    [] OTHER -> as

(* what the server may tell the application in each state *)
LegalIn(cs, m) ==
  \/ cs = "CONNECTING" /\ m.ty = "websocket.connect"
  \/ cs = "CONNECTED"  /\ m.ty \in {"websocket.receive", "websocket.disconnect"}

AfterIn(cs, m) ==
  CASE m.ty = "websocket.connect"    -> "CONNECTED"
    [] m.ty = "websocket.disconnect" -> "DISCONNECTED"
    [] OTHER -> cs

Ret(r)     == [k |-> "ret", r |-> r]
Ok         == Ret(<<"ok", "">>)
Err(name)  == Ret(<<"err", name>>)
Disc(c, r) == Ret(<<"disc", c \o "|" \o r>>)

(* the message an operation tells the server *)
OpMsg(e) ==
  CASE e.op = "accept"     -> [Msg("websocket.accept") EXCEPT !.sub = e.sub, !.hdrs = e.hdrs]
    [] e.op = "send_text"  -> [Msg("websocket.send") EXCEPT !.text = e.data]
    [] e.op = "send_bytes" -> [Msg("websocket.send") EXCEPT !.bytes = e.data]
    [] e.op = "send_json" /\ e.mode = "text"   -> [Msg("websocket.send") EXCEPT !.text = e.data]
    [] e.op = "send_json" /\ e.mode = "binary" -> [Msg("websocket.send") EXCEPT !.bytes = e.data]
    [] e.op = "close"      -> [Msg("websocket.close") EXCEPT !.code = e.code, !.reason = e.reason]
    [] e.op = "raw"        -> e.m
    [] e.op = "deny"       -> [Msg("websocket.http.response.start") EXCEPT !.status = e.status, !.hdrs = e.hdrs]

Tell(s, m) == IF Legal(s.as, m) THEN [k |-> "emit", m |-> m] ELSE Err("RuntimeError")

Listen(s) == IF s.cs = "DISCONNECTED" THEN Err("RuntimeError") ELSE [k |-> "recv"]

ReceiveOps == {"receive_text", "receive_bytes", "receive_json", "iter_text", "iter_bytes", "iter_json"}
IterOps    == {"iter_text", "iter_bytes", "iter_json"}

Begin(s, e) ==
  CASE e.op = "receive" -> Listen(s)
    [] e.op = "receive_json" /\ e.mode = "neither" -> Err("RuntimeError")
    [] e.op = "send_json"    /\ e.mode = "neither" -> Err("RuntimeError")
    [] e.op \in ReceiveOps -> IF s.as # "CONNECTED" THEN Err("RuntimeError") ELSE Listen(s)
    [] e.op = "accept" /\ s.cs = "CONNECTING" -> [k |-> "recv"]
    [] e.op = "deny" /\ ~s.ext -> Err("RuntimeError")
    [] OTHER -> Tell(s, OpMsg(e))

(* the field of an incoming message a receiving call asks for *)
Want(e) ==
  CASE e.op \in {"receive_text", "iter_text", "iter_json"}  -> "text"
    [] e.op \in {"receive_bytes", "iter_bytes"} -> "bytes"
    [] e.mode = "binary" -> "bytes"
    [] OTHER -> "text"
Payload(e, m) == IF Want(e) = "text" THEN m.text ELSE m.bytes

(* what a call does next once it has been given message m; s is already the    *)
(* state after m                                                               *)
OnMessage(s, cs0, p, m) ==
  LET e == p.e IN
  IF ~LegalIn(cs0, m) THEN Err("RuntimeError")
  ELSE IF e.op = "accept" THEN Tell(s, OpMsg(e))
  ELSE IF e.op = "receive" THEN Ret(<<"msg", m.ty \o "|" \o m.text \o "|" \o m.bytes \o "|" \o m.code \o "|" \o m.reason>>)
  ELSE IF m.ty = "websocket.disconnect"
       THEN IF e.op \in IterOps THEN Ret(<<"items", p.acc>>) ELSE Disc(m.code, m.reason)
  ELSE IF m.ty = "websocket.connect" THEN [k |-> "ret", r |-> <<"any", "">>]
  ELSE IF Payload(e, m) = Absent THEN [k |-> "ret", r |-> <<"any", "">>]
  ELSE IF Payload(e, m) = "" /\ e.op \in {"receive_json", "iter_json"}
       THEN [k |-> "ret", r |-> <<"any", "">>]          \* not a JSON document
  ELSE IF e.op \in IterOps THEN IF s.as # "CONNECTED" THEN Err("RuntimeError") ELSE Listen(s)
  ELSE Ret(<<"val", Payload(e, m)>>)

Body(e, last) == [Msg("websocket.http.response.body") EXCEPT !.body = e.body]

OnAck(s, as0, p, ok) ==
  IF ~ok THEN IF as0 = "CONNECTED" THEN Disc("1006", "") ELSE Err("OSError")
  ELSE IF p.e.op = "deny" /\ p.n = 0 THEN Tell(s, Body(p.e, TRUE))
  ELSE Ok

-----------------------------------------------------------------------------
(* trace interface *)
InitState(cfg) == [cs |-> "CONNECTING", as |-> "CONNECTING", ext |-> cfg.ext, ops |-> <<>>,
                   sent |-> <<>>]

(* p.as0: the state of the session when the message now being acknowledged was *)
(* told to the server                                                          *)
Pend(e, nx) == [e |-> e, nx |-> nx, acc |-> "", n |-> 0, as0 |-> "CONNECTING"]

Next1(s, e) == s.ops[e.i].nx

Checks(s, e) ==
  CASE e.t = "op" -> <<<<"calls-are-numbered", e.i = Len(s.ops) + 1>>>>
    [] e.t = "listen" ->
         <<<<"server-receive-called-only-when-session-may-receive", Next1(s, e).k = "recv">>>>
    [] e.t = "recv" ->
         <<<<"receive-is-for-a-listening-call", Next1(s, e).k = "recv">>>>
    [] e.t = "emit" ->
         <<<<"message-is-legal-in-the-session-state", Legal(s.as, e.m)>>,
           <<"message-is-what-the-call-asked-for",
             Next1(s, e).k = "emit" /\ Next1(s, e).m = e.m>>>>
    [] e.t = "ack" -> <<<<"ack-of-an-emitted-message", Next1(s, e).k = "ack">>>>
    [] e.t = "ret" ->
         <<<<"call-finished-with-work-outstanding", Next1(s, e).k = "ret">>,
           <<"call-result", Next1(s, e).k = "ret" =>
                (Next1(s, e).r[1] = "any" \/ Next1(s, e).r = e.r)>>>>
    [] e.t = "end" ->
         <<<<"every-call-not-waiting-for-the-server-has-returned",
             \A i \in 1 .. Len(s.ops) : s.ops[i].nx.k \in {"recv", "ack", "done"}>>,
           <<"session-reports-the-states-it-is-in",
             e.cs = s.cs /\ e.as = s.as>>>>

Apply(s, e) ==
  CASE e.t = "op" -> [s EXCEPT !.ops = Append(@, Pend(e, Begin(s, e)))]
    [] e.t = "listen" -> s
    [] e.t = "recv" ->
         LET s1 == IF LegalIn(s.cs, e.m) THEN [s EXCEPT !.cs = AfterIn(s.cs, e.m)] ELSE s
             p  == s.ops[e.i]
             nx == OnMessage(s1, s.cs, p, e.m)
             ac == IF p.e.op \in IterOps /\ e.m.ty = "websocket.receive"
                   THEN p.acc \o Payload(p.e, e.m) \o ";" ELSE p.acc
         IN [s1 EXCEPT !.ops[e.i] = [p EXCEPT !.nx = nx, !.acc = ac]]
    [] e.t = "emit" ->
         [s EXCEPT !.as = AfterEmit(s.as, e.m), !.sent = Append(@, e.m.ty),
                   !.ops[e.i].nx = [k |-> "ack"], !.ops[e.i].as0 = s.as]
    [] e.t = "ack" ->
         LET p  == s.ops[e.i]
             s1 == IF ~e.ok /\ p.as0 = "CONNECTED" THEN [s EXCEPT !.as = "DISCONNECTED"] ELSE s
         IN [s1 EXCEPT !.ops[e.i] = [p EXCEPT !.nx = OnAck(s1, p.as0, p, e.ok), !.n = @ + 1]]
    [] e.t = "ret" -> [s EXCEPT !.ops[e.i].nx = [k |-> "done"]]
    [] e.t = "end" -> s
=============================================================================

---------------------------- MODULE MC_WebSocket ----------------------------
(* The session automaton in a closed world: an application making any of the  *)
(* calls below, at most two in progress at a time (only one of them listening),*)
(* against a server that may delay or fail a send and push any message.       *)
(* Checked: whatever the application does, what the server is told follows the *)
(* WebSocket grammar; the server is never asked for a message after it said    *)
(* disconnect.  Every transition is also exported as a scenario for the code.  *)
EXTENDS WebSocket, Json

CONSTANTS Depth, Export

VARIABLES s, inbox, g, asked, hist
vars == <<s, inbox, g, asked, hist>>

Op(op, f) == [t |-> "op", op |-> op, data |-> "x", mode |-> "text", code |-> "1000", reason |-> "",
              sub |-> Absent, hdrs |-> "[]", status |-> "403", body |-> "no", m |-> Msg("websocket.send")] @@ f
Calls == {
  [op |-> "accept"], [op |-> "receive"], [op |-> "receive_text"], [op |-> "receive_bytes"],
  [op |-> "receive_json"], [op |-> "receive_json", mode |-> "binary"],
  [op |-> "iter_text"], [op |-> "send_text"], [op |-> "send_bytes"], [op |-> "send_json"],
  [op |-> "close", code |-> "1001", reason |-> "r"], [op |-> "deny"],
  [op |-> "raw", m |-> [Msg("websocket.accept") EXCEPT !.sub = "p"]],
  [op |-> "raw", m |-> [Msg("websocket.close") EXCEPT !.code = "4000"]],
  [op |-> "raw", m |-> [Msg("websocket.http.response.start") EXCEPT !.status = "404"]],
  [op |-> "raw", m |-> [Msg("websocket.http.response.body") EXCEPT !.body = "b", !.more = "T"]],
  [op |-> "raw", m |-> [Msg("websocket.http.response.body") EXCEPT !.body = "c"]],
  [op |-> "raw", m |-> Msg("websocket.unknown")] }
Full(f) == f @@ [t |-> "op", data |-> "\"x\"", mode |-> "text", code |-> "1000", reason |-> "",
              sub |-> Absent, hdrs |-> "[]", status |-> "403", body |-> "no", m |-> Msg("websocket.send")]

Pushes == {Msg("websocket.connect"), [Msg("websocket.receive") EXCEPT !.text = "1"],
           [Msg("websocket.receive") EXCEPT !.bytes = "2"],
           [Msg("websocket.disconnect") EXCEPT !.code = "1001", !.reason = "bye"]}

(* the grammar of a session, independent of the automaton above *)
Step(st, m) ==
  CASE st = "init" /\ m.ty = "websocket.accept" -> "open"
    [] st = "init" /\ m.ty = "websocket.close"  -> "over"
    [] st = "init" /\ m.ty = "websocket.http.response.start" -> "resp"
    [] st = "open" /\ m.ty = "websocket.send"   -> "open"
    [] st = "open" /\ m.ty = "websocket.close"  -> "over"
    [] st = "resp" /\ m.ty = "websocket.http.response.body" -> IF m.more = "T" THEN "resp" ELSE "over"
    [] OTHER -> "illegal"

Listening == {i \in DOMAIN s.ops : s.ops[i].nx.k = "recv"}
Remove(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

(* run every call until it waits for the server *)
RECURSIVE Settle(_, _)
Settle(w, hold) ==
  LET st == w.s
      R  == {i \in DOMAIN st.ops : st.ops[i].nx.k = "ret"}
      E  == {i \in DOMAIN st.ops : st.ops[i].nx.k = "emit"}
      L  == {i \in DOMAIN st.ops : st.ops[i].nx.k = "recv"}
  IN IF R # {} THEN LET i == CHOOSE x \in R : TRUE
                    IN Settle([w EXCEPT !.s.ops = Remove(@, i)], hold)
     ELSE IF E # {} THEN
          LET i  == CHOOSE x \in E : TRUE
              m  == st.ops[i].nx.m
              s1 == Apply(st, [t |-> "emit", i |-> i, m |-> m])
              s2 == IF hold = "hold" THEN s1 ELSE Apply(s1, [t |-> "ack", i |-> i, ok |-> hold # "fail"])
          IN Settle([w EXCEPT !.s = s2, !.g = Step(@, m)], hold)
     ELSE IF L # {} /\ w.inbox # <<>> THEN
          LET i  == CHOOSE x \in L : TRUE
          IN Settle([w EXCEPT !.s = Apply(st, [t |-> "recv", i |-> i, m |-> Head(w.inbox)]),
                              !.inbox = Tail(@),
                              !.asked = @ \/ (st.cs = "DISCONNECTED")], hold)
     ELSE w

Become(w, a) ==
  /\ s' = w.s /\ inbox' = w.inbox /\ g' = w.g /\ asked' = w.asked
  /\ hist' = Append(hist, a)
  /\ Export => PrintT("GEN " \o ToJson([ext |-> s.ext, acts |-> hist']))

W == [s |-> s, inbox |-> inbox, g |-> g, asked |-> asked]

Call == \E f \in Calls, hold \in {"ok", "hold", "fail"} :
          LET e == Full(f)
              nx == Begin(s, e) IN
          /\ Len(s.ops) < 2
          /\ (nx.k = "recv" => Listening = {})
          /\ (hold # "ok" => nx.k = "emit")
          /\ Become(Settle([W EXCEPT !.s.ops = Append(@, Pend(e, nx))], hold), [a |-> "call", e |-> e, hold |-> hold])

Push == \E m \in Pushes : /\ Len(inbox) < 2
                          /\ Become(Settle([W EXCEPT !.inbox = Append(@, m)], "ok"), [a |-> "push", m |-> m])

Release == \E i \in DOMAIN s.ops, ok \in BOOLEAN :
             /\ s.ops[i].nx.k = "ack"
             /\ \A j \in DOMAIN s.ops : j < i => s.ops[j].nx.k # "ack"
             /\ Become(Settle([W EXCEPT !.s = Apply(s, [t |-> "ack", i |-> i, ok |-> ok])], "ok"),
                       [a |-> "release", ok |-> ok])

Init == /\ \E x \in BOOLEAN : s = InitState([ext |-> x])
        /\ inbox = <<>> /\ g = "init" /\ asked = FALSE /\ hist = <<>>
Next == Len(hist) < Depth /\ (Call \/ Push \/ Release)

View == <<[s EXCEPT !.sent = <<>>], inbox, g, asked>>

Grammar == g # "illegal"
NoAskAfterDisconnect == ~asked
Agree == \/ <<s.as, g>> \in {<<"CONNECTING", "init">>, <<"CONNECTED", "open">>, <<"RESPONSE", "resp">>}
         \/ s.as = "DISCONNECTED"
=============================================================================

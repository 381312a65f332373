------------------------------ MODULE WsEndpoint ------------------------------
(* A class-based WebSocket endpoint: on_connect, then on_receive per message,  *)
(* then on_disconnect.  cfg.enc: text | bytes | json | none (no declared       *)
(* encoding); cfg.plain: on_connect is the inherited one.                      *)
(* A client message: [type, tk, text, bk, bytes, json, code] (tk/bk: there is  *)
(* text/bytes; json: the JSON value of it in canonical form, or "!").          *)
(* Events: hook/hookend/hookraise (on_connect, on_receive, on_disconnect),     *)
(* deliver (a message handed to the application), sent, end.                   *)
EXTENDS Str

InitState(cfg) == [enc |-> cfg.enc, plain |-> cfg.plain, mode |-> "start", hook |-> "", ws |-> "new", seen |-> FALSE,
                   kind |-> "", data |-> "", code |-> 0, x |-> "", late |-> FALSE]

Bad == [k |-> "bad", v |-> ""]
(* what the receive hook is to get *)
Decoded(enc, m) ==
  CASE enc = "text" -> IF m.tk THEN [k |-> "str", v |-> m.text] ELSE Bad
    [] enc = "bytes" -> IF m.bk THEN [k |-> "bytes", v |-> m.bytes] ELSE Bad
    [] enc = "json" -> IF m.json # "!" THEN [k |-> "json", v |-> m.json] ELSE Bad
    [] OTHER -> IF m.tk THEN [k |-> "str", v |-> m.text] ELSE [k |-> "bytes", v |-> m.bytes]

(* modes: start, hook, loop, give (a message to give to on_receive), refuse    *)
(* (a close with 1003 is due), leave (on_disconnect is due), over              *)
InHook(s) == s.mode = "hook"
Checks(s, e) ==
  CASE e.t = "hook" /\ e.h = "connect" -> <<<<"connect-hook-first-and-once", s.mode = "start" /\ ~s.plain>>>>
    [] e.t = "hook" /\ e.h = "receive" -> <<<<"receive-hook-once-per-message", s.mode = "give">>,
                                           <<"receive-hook-gets-the-message", s.mode = "give" => e.k = s.kind /\ e.v = s.data>>>>
    [] e.t = "hook" /\ e.h = "disconnect" -> <<<<"disconnect-hook-when-the-session-ends", s.mode = "leave">>,
                                              <<"disconnect-code", s.mode = "leave" => s.code = 0 \/ e.code = s.code>>>>
    [] e.t \in {"hookend", "hookraise"} -> <<<<"hook-in-progress", InHook(s) /\ s.hook = e.h>>>>
    [] e.t = "deliver" -> <<<<"hooks-run-one-at-a-time", s.mode = "loop" \/ (s.mode = "start" /\ s.plain) \/ (InHook(s) /\ s.hook = "connect")>>>>
    [] e.t = "sent" -> <<<<"only-hooks-send",
                          InHook(s) \/ (s.mode = "start" /\ s.plain /\ e.type = "websocket.accept") \/ (s.mode = "refuse" /\ e.type = "websocket.close" /\ e.code = 1003)>>>>
    [] e.t = "cancel" -> <<<<"cancelled-while-waiting", s.mode \in {"loop", "give"}>>>>
    [] e.t = "end" ->
         <<<<"disconnect-hook-runs", s.mode = "over">>,
           <<"ends-as-the-hooks-say", s.mode = "over" => (CASE s.x = "" -> e.x = "" [] s.x = "any" -> e.x # "" /\ e.x # "cancelled" [] OTHER -> e.x = s.x)>>>>

Leave(s, code, x) == [s EXCEPT !.mode = "leave", !.code = code, !.x = x]
Apply(s, e) ==
  CASE e.t = "hook" -> [s EXCEPT !.mode = "hook", !.hook = e.h]
    [] e.t = "hookend" -> [s EXCEPT !.mode = IF e.h = "disconnect" THEN "over" ELSE "loop", !.hook = ""]
    [] e.t = "hookraise" -> (CASE e.h = "connect" -> [s EXCEPT !.mode = "over", !.x = e.x]
                               [] e.h = "disconnect" -> [s EXCEPT !.mode = "over", !.x = e.x]
                               [] e.h = "receive" -> Leave(s, 1011, e.x))
    [] e.t = "deliver" ->
         IF e.m.type = "websocket.connect" THEN [s EXCEPT !.seen = TRUE]
         ELSE IF InHook(s) THEN s
         ELSE IF e.m.type = "websocket.disconnect" THEN Leave(s, IF e.m.code = 0 THEN 1000 ELSE e.m.code, "")
         ELSE LET d == Decoded(s.enc, e.m) IN
              IF d.k = "bad" THEN IF s.ws = "closed" THEN Leave(s, 1011, "any") ELSE [s EXCEPT !.mode = "refuse"]
              ELSE [s EXCEPT !.mode = "give", !.kind = d.k, !.data = d.v]
    [] e.t = "sent" ->
         LET w == CASE e.type = "websocket.accept" -> "accepted" [] e.type = "websocket.close" -> "closed" [] OTHER -> s.ws
         IN IF s.mode = "refuse" THEN [Leave(s, 1011, "any") EXCEPT !.ws = w]
            ELSE IF s.mode = "start" THEN [s EXCEPT !.mode = "loop", !.ws = w]
            ELSE [s EXCEPT !.ws = w]
    [] e.t = "cancel" -> Leave(s, 0, "cancelled")
    [] OTHER -> [s EXCEPT !.mode = "ended"]
=============================================================================

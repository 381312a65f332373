----------------------------- MODULE MC_WsEndpoint -----------------------------
(* All short sessions of an endpoint, with hooks that end, raise or close.     *)
EXTENDS WsEndpoint, Json
CONSTANTS Depth, Export
VARIABLES s, cfg, hist, order, given, nmsg
vars == <<s, cfg, hist, order, given, nmsg>>
Cfgs == [enc : {"text", "bytes", "json", "none"}, plain : BOOLEAN]
M(t, tk, text, bk, bytes, js, code) == [type |-> t, tk |-> tk, text |-> text, bk |-> bk, bytes |-> bytes, json |-> js, code |-> code]
Msgs == {M("websocket.receive", TRUE, "1", FALSE, "", "1", 0), M("websocket.receive", TRUE, "", FALSE, "", "!", 0),
         M("websocket.receive", FALSE, "", TRUE, "2", "2", 0), M("websocket.receive", FALSE, "", TRUE, "{", "!", 0)}
Gone == {M("websocket.disconnect", FALSE, "", FALSE, "", "!", c) : c \in {0, 1001}}
Connect == M("websocket.connect", FALSE, "", FALSE, "", "!", 0)
Holds(e) == \A i \in 1 .. Len(Checks(s, e)) : Checks(s, e)[i][2]
Do(e) == Holds(e) /\ s' = Apply(s, e)
Log(a) == hist' = Append(hist, a)
Init == cfg \in Cfgs /\ s = InitState(cfg) /\ hist = <<>> /\ order = <<>> /\ given = <<>> /\ nmsg = <<>>
Hook == \/ /\ Do([t |-> "hook", h |-> "connect"]) /\ order' = Append(order, "connect") /\ UNCHANGED <<hist, given, nmsg, cfg>>
        \/ /\ s.mode = "give" /\ Do([t |-> "hook", h |-> "receive", k |-> s.kind, v |-> s.data])
           /\ order' = Append(order, "receive") /\ given' = Append(given, s.data) /\ UNCHANGED <<hist, nmsg, cfg>>
        \/ /\ s.mode = "leave" /\ Do([t |-> "hook", h |-> "disconnect", code |-> IF s.code = 0 THEN 1000 ELSE s.code])
           /\ order' = Append(order, "disconnect") /\ UNCHANGED <<hist, given, nmsg, cfg>>
Act == /\ InHook(s)
       /\ \/ Do([t |-> "hookend", h |-> s.hook]) /\ Log([a |-> "end"])
          \/ Do([t |-> "hookraise", h |-> s.hook, x |-> "x" \o s.hook]) /\ Log([a |-> "raise"])
          \/ /\ s.hook # "disconnect" /\ s.ws = "accepted" /\ Do([t |-> "sent", type |-> "websocket.close", code |-> 1000]) /\ Log([a |-> "close"])
          \/ /\ s.hook = "connect" /\ s.ws = "new" /\ s.seen /\ Do([t |-> "sent", type |-> "websocket.accept", code |-> 0]) /\ Log([a |-> "accept"])
          \/ /\ s.hook = "connect" /\ s.ws = "new" /\ s.seen /\ Do([t |-> "sent", type |-> "websocket.close", code |-> 1000]) /\ Log([a |-> "close"])
       /\ UNCHANGED <<order, given, nmsg, cfg>>
Auto == /\ ~InHook(s)
        /\ \/ /\ s.mode = "start" /\ s.plain /\ s.seen /\ Do([t |-> "sent", type |-> "websocket.accept", code |-> 0])
           \/ Do([t |-> "sent", type |-> "websocket.close", code |-> 1003])
        /\ UNCHANGED <<hist, order, given, nmsg, cfg>>
First == /\ ~s.seen /\ (s.mode = "start" => s.plain) /\ Do([t |-> "deliver", m |-> Connect]) /\ UNCHANGED <<hist, order, given, nmsg, cfg>>
Message == /\ s.mode = "loop" /\ s.seen
           /\ \E m \in (IF s.ws = "accepted" /\ Len(nmsg) < Depth THEN Msgs ELSE {}) \cup Gone :
                Do([t |-> "deliver", m |-> m]) /\ Log([a |-> "msg", m |-> m]) /\ nmsg' = Append(nmsg, m)
           /\ UNCHANGED <<order, given, cfg>>
Cancel == s.mode = "loop" /\ s.seen /\ Do([t |-> "cancel"]) /\ Log([a |-> "cancel"]) /\ UNCHANGED <<order, given, nmsg, cfg>>
End == /\ Do([t |-> "end", x |-> IF s.x = "any" THEN "y" ELSE s.x])
       /\ (Export => PrintT("GEN " \o ToJson([cfg |-> cfg, hist |-> hist])))
       /\ UNCHANGED <<hist, order, given, nmsg, cfg>>
Next == Hook \/ Act \/ Auto \/ First \/ Message \/ Cancel \/ End
Count(q, x) == Len(SelectSeq(q, LAMBDA y : y = x))
ConnectOnceFirst == Count(order, "connect") <= 1 /\ (order # <<>> /\ ~cfg.plain => order[1] = "connect")
DisconnectOnceLast == Count(order, "disconnect") <= 1 /\ (Count(order, "disconnect") = 1 => Last(order) = "disconnect")
AlwaysDisconnected == s.mode = "ended" => \/ Last(order) = "disconnect" \/ (~cfg.plain /\ order = <<"connect">> /\ s.x # "")
Fits(m) == Decoded(cfg.enc, m).k # "bad"
(* what was given is what was sent, in order, up to the first message that does not fit *)
Wanted == LET q == SelectSeq(nmsg, LAMBDA m : m.type = "websocket.receive" /\ Fits(m)) IN [i \in 1 .. Len(q) |-> Decoded(cfg.enc, q[i]).v]
InOrder == Len(given) <= Len(Wanted) /\ \A i \in 1 .. Len(given) : given[i] = Wanted[i]
NothingAfterBad == \A i \in 1 .. Len(nmsg) : nmsg[i].type = "websocket.receive" /\ ~Fits(nmsg[i]) => i = Len(nmsg)
=============================================================================

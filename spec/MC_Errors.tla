------------------------------- MODULE MC_Errors -------------------------------
(* All outcomes of one exception (and those raised by handlers) through small  *)
(* stacks of layers, with every point of failure and every table of handlers.  *)
EXTENDS Errors, Json
CONSTANTS MaxCalls, Export
VARIABLES s, cfg, hist, starts, after, calls, over, sents
vars == <<s, cfg, hist, starts, after, calls, over, sents>>
X(id, mro, st, dt, cd) == [id |-> id, mro |-> mro, status |-> st, detail |-> dt, hdrs |-> IF st = 404 THEN <<<<"x-e", "1">>>> ELSE <<>>, code |-> cd, reason |-> IF cd = 0 THEN "" ELSE "r"]
Excs == {X("xA", <<"A", "Exception">>, 0, "", 0), X("xB", <<"B", "A", "Exception">>, 0, "", 0), X("x404", <<"HTTPException", "Exception">>, 404, "nf", 0),
         X("x304", <<"H", "HTTPException", "Exception">>, 304, "d", 0)}
WsExcs == {X("xA", <<"A", "Exception">>, 0, "", 0), X("x404", <<"HTTPException", "Exception">>, 404, "nf", 0), X("xW", <<"W", "WebSocketException", "Exception">>, 0, "", 4001)}
Tabs == {<<>>, <<<<"A", "1">>>>, <<<<"404", "2">>, <<"HTTPException", "3">>>>, <<<<"A", "1">>, <<"B", "4">>, <<"404", "2">>>>, <<<<"RuntimeError", "5">>, <<"H", "6">>>>}
WsTabs == {<<>>, <<<<"A", "1">>>>, <<<<"HTTPException", "3">>>>, <<<<"WebSocketException", "4">>, <<"RuntimeError", "5">>>>}
HL(t) == [k |-> "h", tab |-> t, h |-> "0", debug |-> FALSE]
EL(h, d) == [k |-> "e", tab |-> <<>>, h |-> h, debug |-> d]
ML == [k |-> "m", tab |-> <<>>, h |-> "0", debug |-> FALSE]
Ends == {EL("0", FALSE), EL("7", FALSE), EL("0", TRUE)}
Cfgs == [typ : {"http"}, layers : {<<HL(t), HL(t), ML, e>> : t \in Tabs, e \in Ends} \cup {<<HL(t), e, HL(u), f>> : t \in {<<>>, <<<<"A", "1">>>>}, e \in Ends, u \in Tabs, f \in Ends}]
        \cup [typ : {"websocket"}, layers : {<<HL(t), HL(t), ML, EL("0", FALSE)>> : t \in WsTabs}]
M(t, st, b, more, hd) == [type |-> t, status |-> st, body |-> b, more |-> more, hdrs |-> hd]
Own == IF cfg.typ = "http" THEN {M("http.response.start", 200, "", FALSE, <<>>), M("http.response.body", 0, "b", TRUE, <<>>), M("http.response.body", 0, "e", FALSE, <<>>)}
       ELSE {M("websocket.accept", 0, "", FALSE, <<>>), M("websocket.send", 0, "t", FALSE, <<>>), M("websocket.close", 1000, "", FALSE, <<>>)}
Order == IF cfg.typ = "http" THEN <<"http.response.start", "http.response.body">> ELSE <<"websocket.accept", "websocket.send", "websocket.close">>
Emits == Len(SelectSeq(hist, LAMBDA a : a.a = "emit"))
Holds(e) == \A i \in 1 .. Len(Checks(s, e)) : Checks(s, e)[i][2]
Init == /\ cfg \in Cfgs /\ s = InitState(cfg) /\ hist = <<>> /\ starts = 0 /\ after = FALSE /\ calls = <<>> /\ over = FALSE /\ sents = 0
Do(e) == Holds(e) /\ s' = Apply(s, e)
Log(a) == hist' = Append(hist, a)
(* the application emits in a legal order, then ends or raises *)
Legal(m) == IF cfg.typ = "http"
            THEN CASE Emits = 0 -> m.type = "http.response.start" [] Emits = 1 -> m.body = "b" [] Emits = 2 -> m.body = "e" [] OTHER -> FALSE
            ELSE CASE Emits = 0 -> m.type \in {"websocket.accept", "websocket.close"} [] Emits = 1 -> s.ws = "accepted" /\ m.type # "websocket.accept" [] OTHER -> FALSE
Emit == /\ s.mode = "run" /\ s.pend = <<>> /\ \E m \in Own : Legal(m) /\ Do([t |-> "emit", m |-> m]) /\ Log([a |-> "emit", m |-> m])
        /\ UNCHANGED <<starts, after, calls, over, cfg, sents>>
Sends == (IF s.pend # <<>> THEN {s.pend[1]} ELSE {})
         \cup {M(t, st, b, FALSE, h) : t \in {"http.response.start", "http.response.body", "websocket.close", "websocket.http.response.start", "websocket.http.response.body"},
               st \in {0, s.exp.status}, b \in {"", s.exp.body}, h \in {<<>>, s.exp.hdrs}}
Sent == /\ \E m \in Sends : Do([t |-> "sent", m |-> m])
                            /\ starts' = (IF m.type \in {"http.response.start", "websocket.http.response.start"} THEN starts + 1 ELSE starts)
                            /\ after' = (after \/ (s.mode \in {"out", "call", "maycall", "in"}))
        /\ sents' = sents + 1
        /\ UNCHANGED <<hist, calls, over, cfg>>
(* one message the server cannot send *)
Failed == \E i \in 1 .. Len(hist) : hist[i].a = "sfail"
Failing == /\ cfg.typ = "http" /\ ~Failed
           /\ \E m \in Sends : /\ Do([t |-> "sfail", m |-> m, x |-> X("xS", <<"OSError", "Exception">>, 0, "", 0)])
                               /\ starts' = (IF m.type = "http.response.start" THEN starts + 1 ELSE starts)
                               /\ after' = (after \/ (s.mode \in {"out", "call", "maycall", "in"}))
           /\ Log([a |-> "sfail", n |-> sents + 1]) /\ UNCHANGED <<calls, over, cfg, sents>>
Raised == /\ s.mode = "run" /\ s.pend = <<>>
          /\ \E x \in (IF cfg.typ = "http" THEN Excs ELSE WsExcs), at \in {1, Len(cfg.layers)} :
               (at > 1 => cfg.layers[at - 1].k = "m") /\ Do([t |-> "raised", x |-> x, at |-> at]) /\ Log([a |-> "raise", x |-> x, at |-> at])
          /\ UNCHANGED <<starts, after, calls, over, cfg, sents>>
Call == /\ Len(calls) < MaxCalls /\ s.mode \in {"call", "maycall"}
        /\ Do([t |-> "call", h |-> s.h, x |-> s.cur.id, conn |-> TRUE, thread |-> FALSE, plain |-> FALSE])
        /\ calls' = Append(calls, [h |-> s.h, x |-> s.cur, pos |-> s.pos]) /\ UNCHANGED <<hist, starts, after, over, cfg, sents>>
Ret == /\ s.mode = "in"
       /\ \/ \E k \in {"plain", "none"} : (s.layers[s.pos].k = "e" => k = "plain") /\ Do([t |-> "ret", k |-> k, status |-> 470, body |-> "h"]) /\ Log([a |-> k])
          \/ cfg.typ = "websocket" /\ Do([t |-> "ret", k |-> "close", status |-> 4101, body |-> "bye"]) /\ Log([a |-> "bye"])
          \/ \E x \in Excs : x.id \in {"xA", "x404"} /\ Do([t |-> "hraise", x |-> x]) /\ Log([a |-> "raises", x |-> x])
       /\ UNCHANGED <<starts, after, calls, over, cfg, sents>>
End == /\ ~over /\ (s.mode \in {"out", "done"} \/ (s.mode = "run" /\ Emits > 0) \/ s.mode = "maycall")
       /\ \E x \in {"", "late", Settled(s, [t |-> "end"]).cur.id} : Do([t |-> "end", x |-> x, chain |-> <<s.cur.reason>>, pages |-> s.pages])
       /\ over' = TRUE /\ UNCHANGED <<hist, starts, after, calls, cfg, sents>>
       /\ (Export => PrintT("GEN " \o ToJson([cfg |-> cfg, hist |-> hist])))
Next == ~over /\ (Emit \/ Sent \/ Failing \/ Raised \/ Call \/ Ret \/ End)
Final == Settled(s, [t |-> "end"])
OneStart == starts <= 1
NothingAfter == ~after
(* an HTTP exception that reaches the server was preceded by an answer *)
AnsweredBeforeRaised == (over /\ Final.mode = "out" /\ cfg.typ = "http") => starts = 1 \/ \E i \in 1 .. Len(hist) : hist[i].a = "raises"
(* every layer calls at most one handler, outwards *)
Outwards == \A i \in 1 .. Len(calls) - 1 : calls[i].pos < calls[i + 1].pos
(* the handler called is not less specific than any other of its table that applies *)
Applies(k, x) == k \in SeqSet(x.mro) \/ (x.status # 0 /\ k = ToString(x.status))
Rank(k, x) == IF k = ToString(x.status) THEN 0 ELSE CHOOSE i \in 1 .. Len(x.mro) : x.mro[i] = k
MostSpecific == \A i \in 1 .. Len(calls) : LET y == cfg.layers[calls[i].pos] IN
                  y.k = "h" => \E j \in 1 .. Len(y.tab) : /\ y.tab[j][2] = calls[i].h /\ Applies(y.tab[j][1], calls[i].x)
                                    /\ \A q \in 1 .. Len(y.tab) : Applies(y.tab[q][1], calls[i].x) => Rank(y.tab[j][1], calls[i].x) <= Rank(y.tab[q][1], calls[i].x)
(* whatever the handlers answer, an open session ends with the answer, and a closed one is told nothing *)
ClosedByTheAnswer == (over /\ cfg.typ = "websocket" /\ Final.mode = "done" /\ hist # <<>> /\ hist[Len(hist)].a = "bye") => s.ws = "closed"
NeverStuck == (~over /\ s.mode = "resp") => \E m \in Sends : Holds([t |-> "sent", m |-> m])
=============================================================================

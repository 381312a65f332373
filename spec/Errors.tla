-------------------------------- MODULE Errors --------------------------------
(* An exception on its way out through the layers of an application:           *)
(*   "h"  a layer that handles exceptions from a table of handlers (a function *)
(*        endpoint's route, and the exception layer of every application)      *)
(*   "e"  the outermost layer of every application, which answers 500          *)
(*   "m"  a middleware, which may raise on its own                             *)
(* cfg.layers, innermost first: [k, tab (pairs <<key, handler>>), h (handler   *)
(* or 0), debug]; cfg.typ: http | websocket.                                   *)
(* An exception: [id, mro (class names), status, detail, hdrs, code, reason].  *)
EXTENDS Str

None == [id |-> "", mro |-> <<>>, status |-> 0, detail |-> "", hdrs |-> <<>>, code |-> 0, reason |-> ""]
InitState(cfg) == [typ |-> cfg.typ, layers |-> cfg.layers, pos |-> 0, cur |-> None, mode |-> "run", started |-> FALSE, ws |-> "connecting",
                   pend |-> <<>>, exp |-> [k |-> "custom", status |-> 0, body |-> "", hdrs |-> <<>>], out |-> [n |-> 0, status |-> 0, body |-> "", fin |-> FALSE],
                   h |-> "0", pages |-> 0, about |-> ""]

Late(s) == [id |-> "late", mro |-> <<"RuntimeError", "Exception">>, status |-> 0, detail |-> "", hdrs |-> <<>>, code |-> 0, reason |-> s.cur.id]

(* the handler of a table: a number, or a built-in one, or 0 *)
Builtin == <<<<"HTTPException", "http">>, <<"WebSocketException", "ws">>>>
InTab(tab, k) == \E i \in 1 .. Len(tab) : tab[i][1] = k
(* the last registration of a key counts *)
OfTab(tab, k) == LET m == GetAll(tab, k) IN Last(m)
RECURSIVE ByClass(_, _)
ByClass(tab, mro) ==
  IF mro = <<>> THEN "0"
  ELSE IF InTab(tab, mro[1]) THEN OfTab(tab, mro[1])
  ELSE IF Has(Builtin, mro[1]) THEN Get(Builtin, mro[1], "0")
  ELSE ByClass(tab, Tail(mro))
Lookup(tab, x) == IF x.status # 0 /\ InTab(tab, ToString(x.status)) THEN OfTab(tab, ToString(x.status)) ELSE ByClass(tab, x.mro)

(* text as HTML text may show it: markup characters only as references *)
Shapes(c) == CASE c = "<" -> {"&lt;", "&#60;", "&#x3c;", "&#x3C;"} [] c = ">" -> {"&gt;", "&#62;", "&#x3e;", "&#x3E;"} [] c = "&" -> {"&amp;", "&#38;"}
               [] c = "\"" -> {"\"", "&quot;", "&#34;"} [] c = "'" -> {"'", "&#x27;", "&#39;", "\\'", "\\&#x27;", "\\&#39;"} [] c = " " -> {" ", "&nbsp;", "&nbsp"} [] OTHER -> {c}
RECURSIVE Shown(_, _)
Shown(page, text) == text = "" \/ \E a \in Shapes(At(text, 1)) : StartsWith(page, a) /\ Shown(From(page, Len(a) + 1), From(text, 2))

Empty == [n |-> 0, status |-> 0, body |-> "", fin |-> FALSE]
Resp(k, st, b, hd) == [k |-> k, status |-> st, body |-> b, hdrs |-> hd]

(* follow the exception s.cur outwards from layer s.pos to the next thing that can be observed *)
RECURSIVE Adv(_)
Adv(s) ==
  IF s.pos > Len(s.layers) THEN [s EXCEPT !.mode = "out"]
  ELSE
  LET y == s.layers[s.pos]
      out == [s EXCEPT !.pos = @ + 1]
      answer(r) == [s EXCEPT !.mode = "resp", !.exp = r, !.out = Empty]
  IN CASE y.k = "m" -> Adv(out)
       [] y.k = "h" ->
            LET h == Lookup(y.tab, s.cur) IN
            IF h = "0" THEN Adv(out)
            ELSE IF s.typ = "http" /\ s.started THEN Adv([out EXCEPT !.cur = Late(s)])
            ELSE IF h = "http" THEN
                 IF s.typ = "websocket" /\ s.ws # "connecting" THEN Adv([out EXCEPT !.cur = Late(s)])
                 ELSE answer(Resp("plain", s.cur.status, IF s.cur.status \in {204, 304} THEN "" ELSE s.cur.detail, s.cur.hdrs))
            ELSE IF h = "ws" THEN
                 IF s.typ = "websocket" /\ s.ws \in {"connecting", "accepted"} THEN answer(Resp("close", s.cur.code, s.cur.reason, <<>>))
                 ELSE Adv([out EXCEPT !.cur = Late(s)])
            ELSE [s EXCEPT !.mode = "call", !.h = h]
       [] y.k = "e" ->
            IF s.typ # "http" THEN Adv(out)
            ELSE IF s.started THEN IF y.h # "0" /\ ~y.debug THEN [s EXCEPT !.mode = "maycall", !.h = y.h] ELSE Adv(out)
            ELSE IF y.debug THEN answer(Resp("page", 500, "", <<>>))
            ELSE IF y.h # "0" THEN [s EXCEPT !.mode = "call", !.h = y.h]
            ELSE answer(Resp("plain", 500, "Internal Server Error", <<>>))

(* the layer's answer is complete: an error layer raises the exception again *)
Answered(s) == IF s.layers[s.pos].k = "e" THEN Adv([s EXCEPT !.pos = @ + 1, !.h = "0"]) ELSE [s EXCEPT !.mode = "done", !.cur = None]
(* what the layer itself raises goes on outwards *)
Raise(s, x, at) == Adv([s EXCEPT !.cur = x, !.pos = at, !.pend = <<>>])

(* a handler of an error layer need not be called when the response has begun *)
Settled(s, e) == IF s.mode = "maycall" /\ e.t # "call" THEN Adv([s EXCEPT !.pos = @ + 1, !.h = "0"]) ELSE s

Custom(s) == s.mode \in {"run", "done"} \/ s.mode = "in" \/ (s.mode = "resp" /\ s.exp.k = "custom")

WsState(w, m) == CASE m.type = "websocket.accept" -> "accepted" [] m.type = "websocket.close" -> "closed" [] m.type = "websocket.http.response.start" -> "denied" [] OTHER -> w

Checks(s0, e) ==
  LET s == Settled(s0, e) IN
  CASE e.t = "emit" -> <<<<"application-code-runs", Custom(s)>>>>
    [] e.t \in {"sent", "sfail"} ->
         IF Custom(s) THEN <<<<"passes-through-unchanged", s.pend = <<e.m>>>>>>
         ELSE IF s.mode # "resp" THEN <<<<"nothing-emitted", FALSE>>>>
         ELSE IF s.exp.k = "close" THEN <<<<"close-with-code-and-reason", e.m.type = "websocket.close" /\ e.m.status = s.exp.status /\ e.m.body = s.exp.body>>>>
         ELSE IF e.m.type \in {"http.response.start", "websocket.http.response.start"}
              THEN <<<<"one-response", s.out.n = 0 /\ ~s.started /\ s.ws = "connecting">>,
                     <<"typed-for-the-connection", e.m.type = IF s.typ = "http" THEN "http.response.start" ELSE "websocket.http.response.start">>,
                     <<"status-of-the-answer", e.m.status = s.exp.status>>,
                     <<"headers-of-the-answer", \A i \in 1 .. Len(s.exp.hdrs) : s.exp.hdrs[i] \in SeqSet(e.m.hdrs)>>>>
         ELSE <<<<"body-of-the-answer", s.out.n = 1 /\ ~s.out.fin /\ StartsWith(e.m.type, IF s.typ = "http" THEN "http.response.body" ELSE "websocket.http.response.body")
                     /\ (IF s.exp.k = "page" THEN TRUE
                         ELSE IF e.m.more THEN StartsWith(s.exp.body, s.out.body \o e.m.body) ELSE s.exp.body = s.out.body \o e.m.body)>>>>
    [] e.t = "raised" -> <<<<"application-code-raises", (s.mode \in {"run", "done"} /\ e.at > s.pos) \/ (s.mode = "resp" /\ s.exp.k = "custom")>>>>
    [] e.t = "call" -> <<<<"the-most-specific-handler-once", s.mode \in {"call", "maycall"} /\ e.h = s.h>>,
                         <<"given-the-exception", e.x = s.cur.id>>,
                         <<"given-the-connection", e.conn>>,
                         <<"plain-functions-in-a-worker-thread", e.thread = e.plain>>>>
    [] e.t = "ret" -> <<<<"handler-running", s.mode = "in">>>>
    [] e.t = "hraise" -> <<<<"handler-running", s.mode = "in">>, <<"handlers-can-close-an-open-session", s.pend = <<>> \/ s.ws \in {"closed", "denied"}>>>>
    [] e.t = "page" -> <<<<"debug-page-only-in-debug", s.pages > 0>>,
                         <<"page-is-html-iff-asked-for", e.html = e.wants>>,
                         <<"page-names-the-exception", s.about = "" \/ s.about \in SeqSet(e.shown)>>,
                         <<"text-is-escaped-in-the-page", e.html => \A i \in 1 .. Len(e.snips) : Shown(e.snips[i][2], e.snips[i][1])>>>>
    [] e.t = "deco" -> <<<<"decorator-leaves-the-handler-alone", e.same>>>>
    [] e.t = "cdone" -> <<<<"response-being-sent", s.mode = "resp" /\ s.exp.k = "custom" /\ s.pend = <<>>>>>>
    [] e.t = "end" ->
         <<<<"handled-or-raised", CASE s.mode \in {"run", "done"} -> e.x = ""
                                    [] s.mode = "out" -> e.x = s.cur.id /\ (s.cur.id = "late" => s.cur.reason = "late" \/ s.cur.reason \in SeqSet(e.chain))
                                    [] OTHER -> FALSE>>,
           <<"nothing-held-back", s.pend = <<>> \/ s.mode = "out">>,
           <<"debug-page-judged", s.pages = e.pages>>>>

Apply(s0, e) ==
  LET s == Settled(s0, e) IN
  CASE e.t = "emit" -> [s EXCEPT !.pend = <<e.m>>]
    [] e.t = "sent" ->
         LET t == [s EXCEPT !.started = @ \/ e.m.type = "http.response.start", !.ws = WsState(@, e.m), !.pend = <<>>] IN
         IF Custom(s) THEN t
         ELSE IF s.exp.k = "close" THEN Answered(t)
         ELSE IF s.out.n = 0 THEN [t EXCEPT !.out.n = 1, !.pages = IF s.exp.k = "page" THEN @ + 1 ELSE @,
                                        !.about = IF s.exp.k # "page" THEN @ ELSE IF s.cur.status # 0 \/ s.cur.id = "late" THEN "" ELSE s.cur.id]
         ELSE IF e.m.more THEN [t EXCEPT !.out.body = @ \o e.m.body] ELSE Answered(t)
    (* the server fails to send: whoever sent it is raised the error, and the message counts *)
    [] e.t = "sfail" ->
         LET t == [s EXCEPT !.started = @ \/ e.m.type = "http.response.start", !.ws = WsState(@, e.m)] IN
         Raise(t, e.x, IF s.mode = "run" THEN 1 ELSE s.pos + 1)
    [] e.t = "raised" -> Raise(s, e.x, IF s.mode = "resp" THEN s.pos + 1 ELSE e.at)
    [] e.t = "call" -> [s EXCEPT !.mode = "in"]
    [] e.t = "ret" ->
         IF e.k = "none" THEN Answered(s)
         ELSE IF s.typ = "http" /\ s.started THEN Answered(s)   (* an error layer, too late: the answer is dropped *)
         ELSE IF s.typ = "websocket" /\ s.ws \notin (IF e.k = "close" THEN {"connecting", "accepted"} ELSE {"connecting"}) THEN Raise(s, Late(s), s.pos + 1)
         ELSE [s EXCEPT !.mode = "resp", !.exp = Resp(e.k, e.status, e.body, <<>>), !.out = Empty]
    [] e.t = "hraise" -> Raise(s, IF e.x.id = s.cur.id THEN s.cur ELSE e.x, s.pos + 1)
    [] e.t = "cdone" -> Answered(s)
    [] OTHER -> s
=============================================================================

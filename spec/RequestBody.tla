---------------------------- MODULE RequestBody ----------------------------
(* Reading a request body: the server delivers messages in order (q: those it *)
(* has delivered and no reader has taken), and the application reads it with   *)
(* body(), json(), form(), stream() (to its end, or just k chunks) and polls    *)
(* is_disconnected().  One operation at a time; it may be cancelled.           *)
EXTENDS Str

None == "~"
NoOp == [on |-> FALSE, op |-> "", k |-> 0, acc |-> <<>>]
Res(k, v) == <<k, v>>
Nothing == Res("none", <<>>)
Err(n) == Res("err", <<n>>)

InitState(cfg) == [cfg |-> cfg, q |-> <<>>, cached |-> None, form |-> None,
                   started |-> FALSE, done |-> FALSE, disc |-> FALSE, peeked |-> 0,
                   p |-> NoOp, res |-> Nothing]

Chunk(x) == IF x = "" THEN <<>> ELSE <<x>>

(* the whole body is known: what each way of reading it answers *)
Whole(s, op) ==
  CASE op = "body" -> Res("val", <<s.cached>>)
    [] op = "json" -> IF s.cfg.json = "ERR" THEN Err("JSONDecodeError") ELSE Res("val", <<s.cfg.json>>)
    [] op = "form" -> Res("val", <<s.cfg.form>>)
    [] OTHER -> Res("chunks", Chunk(s.cached))

HasForm(s) == s.cfg.ctype # "none"

Begin(s, e) ==
  CASE e.op = "disc" -> [s EXCEPT !.res = Res("poll", <<>>)]
    [] e.op = "form" /\ s.form # None -> [s EXCEPT !.res = Res("val", <<s.form>>)]
    [] e.op = "form" /\ ~HasForm(s) -> [s EXCEPT !.form = "", !.res = Res("val", <<"">>)]
    [] s.cached # None -> LET r == Whole(s, e.op)
                          IN [s EXCEPT !.res = r, !.form = IF e.op = "form" THEN s.cfg.form ELSE @]
    [] e.op \in {"body", "json", "form"} /\ s.started ->
         [s EXCEPT !.res = IF s.disc THEN Err("any") ELSE Err("RuntimeError")]
    [] s.done -> [s EXCEPT !.res = Err("RuntimeError")]
    [] OTHER -> [s EXCEPT !.p = [on |-> TRUE, op |-> e.op, k |-> e.k, acc |-> <<>>]]

Finish(s) ==
  LET p == s.p
      all == Concat(p.acc)
  IN CASE p.op \in {"stream", "take"} -> [s EXCEPT !.p = NoOp, !.res = Res("chunks", p.acc)]
       [] p.op = "form" -> [s EXCEPT !.p = NoOp, !.form = s.cfg.form, !.res = Res("val", <<s.cfg.form>>)]
       [] OTHER -> LET t == [s EXCEPT !.cached = all, !.p = NoOp] IN [t EXCEPT !.res = Whole(t, p.op)]

RECURSIVE Pump(_)
Pump(s) ==
  IF ~s.p.on THEN s
  ELSE IF s.p.op = "take" /\ Len(s.p.acc) = s.p.k THEN [s EXCEPT !.res = Res("chunks", s.p.acc), !.p = NoOp]
  ELSE IF s.done THEN Finish(s)
  ELSE IF s.q = <<>> THEN s
  ELSE LET m == s.q[1] IN
       IF m.ty = "http.disconnect"           \* a server repeats it for ever
       THEN [s EXCEPT !.disc = TRUE, !.p = NoOp, !.res = Err("ClientDisconnect")]
       ELSE Pump([s EXCEPT !.q = Tail(@), !.p.acc = @ \o Chunk(m.body),
                           !.peeked = IF @ = 0 THEN 0 ELSE @ - 1,
                           !.started = @ \/ (m.body # ""), !.done = ~m.more])

Gone(s) == s.disc \/ \E i \in 1 .. Len(s.q) : s.q[i].ty = "http.disconnect"
(* a poll looks at one message more than the earlier ones did *)
NextPeek(s) == s.peeked + 1 <= Len(s.q)
MustSay(s) == s.disc \/ (NextPeek(s) /\ s.q[s.peeked + 1].ty = "http.disconnect")

Checks(s, e) ==
  CASE e.t = "op" -> <<<<"one-operation-at-a-time", ~s.p.on /\ s.res = Nothing>>>>
    [] e.t = "push" -> <<>>
    [] e.t = "cancel" -> <<<<"only-a-waiting-operation-can-be-cancelled", s.p.on>>>>
    [] e.t = "ret" /\ s.res[1] = "poll" ->
         <<<<"poll-answers", e.r[1] = "disc">>,
           <<"says-disconnected-only-if-so", e.r[1] = "disc" /\ (e.r[2][1] = "T" => Gone(s))>>,
           <<"says-connected-only-if-so", e.r[1] = "disc" /\ (e.r[2][1] = "F" => ~MustSay(s))>>>>
    [] e.t = "ret" ->
         <<<<"operation-answers-when-it-can", s.res # Nothing>>,
           <<"result", \/ s.res = e.r
                       \/ s.res = Err("any") /\ e.r[1] = "err"
                       \/ s.res = Nothing>>>>
    [] e.t = "quiet" -> <<<<"operation-waits-only-for-the-server", s.res = Nothing>>,
                          <<"waiting-as-it-should", s.p.on = e.waiting>>>>

Apply(s, e) ==
  CASE e.t = "op" -> Pump(Begin(s, e))
    [] e.t = "push" -> Pump([s EXCEPT !.q = Append(@, e.m)])
    [] e.t = "cancel" -> [s EXCEPT !.p = NoOp, !.res = Res("cancelled", <<>>)]
    [] e.t = "ret" /\ s.res[1] = "poll" ->
         [s EXCEPT !.res = Nothing, !.disc = @ \/ e.r[2][1] = "T",
                   !.peeked = IF e.r[2][1] = "F" /\ NextPeek(s) THEN @ + 1 ELSE @]
    [] e.t = "ret" -> [s EXCEPT !.res = Nothing]
    [] e.t = "quiet" -> s
=============================================================================

------------------------------- MODULE MC_Session -------------------------------
(* The middleware as a machine over signed, timestamped tokens, with browsers  *)
(* that present any token ever issued, altered, or signed by someone else.     *)
EXTENDS Session, Json
CONSTANTS MaxReqs, Times, Ages, Export
VARIABLES s, tokens, now, n, last, hist
vars == <<s, tokens, now, n, last, hist>>
OpsOf == {<<>>, <<<<"set", "a", "1">>>>, <<<<"set", "a", "2">>, <<"set", "b", "1">>>>, <<<<"del", "a">>>>, <<<<"clear">>>>, <<<<"clear">>, <<"set", "b", "3">>>>}
C(age) == [name |-> "session", path |-> "/", domain |-> "", maxage |-> age, samesite |-> "lax", secure |-> FALSE]
Init == s \in {InitState(C(a)) : a \in Ages} /\ tokens = <<>> /\ now = 1 /\ n = 0 /\ last = [t |-> "none"] /\ hist = <<>>
(* what the machine makes of a token: its payload if the signature is right and it is young enough *)
Unsign(tok) == IF tok.key = "mine" /\ (s.c.maxage = 0 \/ now - tok.ts <= s.c.maxage) THEN tok.payload ELSE {}
Present(k, how) == IF k = 0 THEN [key |-> "none", payload |-> {}, ts |-> 0] ELSE [tokens[k] EXCEPT !.key = IF how = "asis" THEN @ ELSE "other"]
Seqd(S) == CHOOSE q \in [1 .. Cardinality(S) -> S] : \A i, j \in 1 .. Cardinality(S) : i # j => q[i] # q[j]
Apply1(m, o) == CASE o[1] = "clear" -> {} [] o[1] = "del" -> {x \in m : x[1] # o[2]} [] o[1] = "set" -> {x \in m : x[1] # o[2]} \cup {<<o[2], o[3]>>}
Req == \E k \in 0 .. Len(tokens), how \in {"asis", "altered", "forged"}, ops \in OpsOf, ty \in {"http", "websocket"}, en \in {"ok", "boom"}, dt \in Times :
  /\ n < MaxReqs /\ n' = n + 1 /\ (k = 0 => how = "asis") /\ (ty = "websocket" => en = "ok" /\ ops = <<>>)
  /\ now' = now + dt
  /\ LET got == Unsign(Present(k, how))
         m == Fold(LAMBDA a, o : Apply1(a, o), got, ops)
         st == IF ty = "websocket" \/ en = "boom" THEN "none" ELSE IF m # {} THEN "cookie" ELSE IF got # {} THEN "expire" ELSE "none"
         e == [t |-> "req", at |-> now, typ |-> ty, sent |-> k, how |-> how, reads |-> Seqd(got), left |-> Seqd(m), ops |-> ops, end |-> en, set |-> st,
               n |-> IF st = "none" THEN 0 ELSE 1, dead |-> st = "expire", kept |-> TRUE, exc |-> en = "boom",
               attrs |-> Seqd(CASE st = "cookie" -> Attrs(s.c) \cup Life(s.c) [] st = "expire" -> Attrs(s.c) [] OTHER -> {})]
     IN /\ last' = [t |-> "req", e |-> e, s |-> s]
        /\ s' = Apply(s, e)
        /\ hist' = Append(hist, [typ |-> ty, sent |-> k, how |-> how, ops |-> ops, end |-> en, at |-> now])
        /\ tokens' = (IF st = "cookie" THEN Append(tokens, [key |-> "mine", payload |-> m, ts |-> now]) ELSE tokens)
        /\ (Export /\ n' = MaxReqs => PrintT("GEN " \o ToJson([age |-> s.c.maxage, hist |-> hist'])))
Next == Req
Agrees == last.t = "req" => LET cs == Checks(last.s, last.e) IN \A i \in 1 .. Len(cs) : cs[i][2]
(* what a session starts with was put there by the application, and recently enough *)
Unforgeable == last.t = "req" /\ last.e.reads # <<>> =>
  \E i \in 1 .. Len(last.s.issued) : SeqSet(last.e.reads) = last.s.issued[i].data /\ (s.c.maxage = 0 \/ last.e.at - last.s.issued[i].at <= s.c.maxage)
Persistent == last.t = "req" /\ last.e.sent > 0 /\ last.e.how = "asis" /\ (s.c.maxage = 0 \/ last.e.at - last.s.issued[last.e.sent].at <= s.c.maxage) =>
  SeqSet(last.e.reads) = last.s.issued[last.e.sent].data
=============================================================================

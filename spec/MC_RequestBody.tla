--------------------------- MODULE MC_RequestBody ---------------------------
(* Every order of reading operations, deliveries and cancellations up to a     *)
(* depth.  Theorems: a read of the whole body answers the whole body, in every *)
(* order of operations; streams hand out each chunk once, in order; a body     *)
(* that is cut short is never presented as the body; polling never disturbs.   *)
EXTENDS RequestBody, Json
CONSTANTS Depth, Export
VARIABLES s, sent, given, ended, bad, hist
vars == <<s, sent, given, ended, bad, hist>>

Ops == {[op |-> "body", k |-> 0], [op |-> "json", k |-> 0], [op |-> "form", k |-> 0],
        [op |-> "stream", k |-> 0], [op |-> "take", k |-> 1], [op |-> "disc", k |-> 0]}
Msgs == {[ty |-> "http.request", body |-> "a", more |-> TRUE], [ty |-> "http.request", body |-> "b", more |-> FALSE],
         [ty |-> "http.request", body |-> "", more |-> TRUE], [ty |-> "http.request", body |-> "", more |-> FALSE],
         [ty |-> "http.disconnect", body |-> "", more |-> FALSE]}

Cfg(ct) == [ctype |-> ct, json |-> "J", form |-> "F"]
Log(a) == hist' = Append(hist, a) /\ (Export => PrintT("GEN " \o ToJson([ctype |-> s.cfg.ctype, acts |-> hist'])))

(* what an answer must be, judged from what the server has delivered only *)
Judge(st, op) ==
  LET r == st.res
      whole == Concat([i \in 1 .. Len(sent') |-> sent'[i].body])
      full == sent' # <<>> /\ \E i \in 1 .. Len(sent') : sent'[i].ty = "http.request" /\ ~sent'[i].more
  IN CASE r[1] = "val" /\ op = "body" -> r[2] = <<whole>> /\ full
       [] r[1] = "val" /\ op = "json" -> r[2] = <<"J">> /\ full
       [] r[1] = "val" /\ op = "form" -> (r[2] = <<"F">> /\ full) \/ (r[2] = <<"">> /\ s.cfg.ctype = "none")
       [] OTHER -> TRUE

Settle(st, op) ==
  /\ bad' = (bad \/ ~Judge(st, op))
  /\ given' = IF st.res[1] = "chunks" /\ st.cached = None THEN given \o Concat(st.res[2]) ELSE given
  /\ s' = CASE st.res[1] = "poll" ->
                 Apply(st, [t |-> "ret", r |-> <<"disc", <<IF MustSay(st) THEN "T" ELSE "F">>>>])
            [] st.res = Nothing -> st
            [] OTHER -> Apply(st, [t |-> "ret", r |-> st.res])

Op == \E o \in Ops : /\ ~s.p.on /\ sent' = sent /\ ended' = ended
                     /\ Settle(Apply(s, o @@ [t |-> "op"]), o.op)
                     /\ Log([a |-> "op", op |-> o.op, k |-> o.k])
Push == \E m \in Msgs :
          /\ (m.ty = "http.request" => ended = "no") /\ ended # "gone"
          /\ ended' = IF m.ty = "http.disconnect" THEN "gone" ELSE IF m.more THEN "no" ELSE "end"
          /\ sent' = Append(sent, m)
          /\ Settle(Apply(s, [t |-> "push", m |-> m]), s.p.op)
          /\ Log([a |-> "push", m |-> m])
Cancel == /\ s.p.on /\ sent' = sent /\ ended' = ended /\ given' = given /\ bad' = bad
          /\ s' = Apply(Apply(s, [t |-> "cancel"]), [t |-> "ret", r |-> <<"cancelled", <<>>>>])
          /\ Log([a |-> "cancel"])

Init == /\ \E ct \in {"urlencoded", "none"} : s = InitState(Cfg(ct))
        /\ sent = <<>> /\ given = "" /\ ended = "no" /\ bad = FALSE /\ hist = <<>>
Next == Len(hist) < Depth /\ (Op \/ Push \/ Cancel)
View == <<s, sent, given, ended, bad>>

NeverShort == ~bad
Whole1 == Concat([i \in 1 .. Len(sent) |-> sent[i].body])
RECURSIVE SubSeqOf(_, _)
SubSeqOf(a, b) == IF a = "" THEN TRUE ELSE IF b = "" THEN FALSE
                  ELSE IF At(a, 1) = At(b, 1) THEN SubSeqOf(From(a, 2), From(b, 2)) ELSE SubSeqOf(a, From(b, 2))
InOrderOnce == SubSeqOf(given, Whole1)
CacheIsWhole == s.cached # None => s.cached = Whole1 /\ s.done
=============================================================================

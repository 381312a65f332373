-------------------------------- MODULE MC_Gzip --------------------------------
(* Every small application response against every acceptable behaviour of the  *)
(* middleware: whatever the checks admit keeps the promises below.             *)
EXTENDS Gzip, Json
CONSTANTS Msgs, Export
VARIABLES s, hist, first, last, raws, ph
vars == <<s, hist, first, last, raws, ph>>
Lines == {<<>>, <<"br, gzip;q=0.5">>, <<"gzip;q=0">>, <<"*">>}
Heads == {<<>>, <<<<"content-length", "2">>, <<"x-a", "1">>>>, <<<<"content-encoding", "br">>>>, <<<<"content-type", "text/event-stream; x=1">>>>, <<<<"vary", "Cookie">>>>}
Packing(h) == LET b == HDel(HDel(h, "content-length"), "vary") IN
              {b \o <<<<"vary", v>>, <<"content-encoding", "gzip">>>> \o c : v \in {"Accept-Encoding", "Cookie, accept-encoding, Accept-Encoding"}, c \in {<<>>, <<<<"content-length", "9">>>>}}
Plainly(h) == {h, HDel(h, "vary") \o <<<<"vary", "Accept-Encoding">>>>, HDel(h, "vary") \o <<<<"vary", "Cookie, accept-encoding">>>>}
NoMsg == [k |-> "", status |-> 0, hdrs |-> <<>>, n |-> 0, more |-> FALSE, type |-> ""]
NoSent == [k |-> "", status |-> 0, hdrs |-> <<>>, got |-> 0, raw |-> 0, more |-> FALSE, fin |-> FALSE, type |-> "", same |-> TRUE]
Init == s = [InitState(0) EXCEPT !.min = 2] /\ hist = <<>> /\ first = <<>> /\ last = NoSent /\ raws = 0 /\ ph = "req"
Holds(e) == \A i \in 1 .. Len(Checks(s, e)) : Checks(s, e)[i][2]
Do(e) == Holds(e) /\ s' = Apply(s, e)
Req == /\ ph = "req" /\ ph' = "app" /\ UNCHANGED <<first, last, raws>>
       /\ \E l \in Lines : LET e == [t |-> "req", ae |-> l, min |-> 2] IN Do(e) /\ hist' = Append(hist, e)
AppMsgs == (IF s.app = "new" THEN {[NoMsg EXCEPT !.k = "start", !.status = 200, !.hdrs = h] : h \in Heads} ELSE {})
           \cup (IF s.app # "new" /\ ~s.done THEN {[NoMsg EXCEPT !.k = "body", !.n = n, !.more = b] : n \in 0 .. 2, b \in BOOLEAN} ELSE {})
           \cup (IF s.app # "body" THEN {[NoMsg EXCEPT !.k = "other", !.type = "http.response.debug"]} ELSE {})
App == /\ ph = "app" /\ Len(hist) <= Msgs /\ UNCHANGED <<first, last, raws>>
       /\ \E m \in AppMsgs : LET e == [t |-> "app", m |-> m] IN Do(e) /\ hist' = Append(hist, e) /\ ph' = IF m.k = "start" THEN "app" ELSE "sent"
(* what the middleware could do about a message: any of these that the checks admit *)
Starts == {[NoSent EXCEPT !.k = "start", !.status = c, !.hdrs = h] : c \in {200, 204}, h \in Packing(s.st.hdrs) \cup Plainly(s.st.hdrs)}
Bodies == {[NoSent EXCEPT !.k = "body", !.got = g, !.raw = r, !.more = b, !.fin = f] : g \in {0, s.n, s.n + 1}, r \in {9, 10}, b \in BOOLEAN, f \in BOOLEAN}
Others == {[NoSent EXCEPT !.k = "other", !.type = "http.response.debug", !.same = b] : b \in BOOLEAN}
Sent == /\ ph = "sent"
        /\ \E m \in (IF s.sent = "new" THEN Starts ELSE Bodies) \cup Others :
             LET e == [t |-> "sent", m |-> m] IN
             /\ Do(e) /\ hist' = hist
             /\ first' = (IF m.k = "start" THEN Append(first, m.hdrs) ELSE first)
             /\ last' = (IF m.k = "body" THEN m ELSE last) /\ raws' = (IF m.k = "body" THEN m.raw ELSE raws)
             /\ ph' = (IF m.k = "start" THEN "sent" ELSE "app")
End == /\ ph = "app" /\ Do([t |-> "end", exc |-> FALSE, raised |-> FALSE]) /\ ph' = "end" /\ UNCHANGED <<hist, first, last, raws>>
       /\ (Export => PrintT("GEN " \o ToJson([hist |-> hist])))
Next == Req \/ App \/ Sent \/ End
Gz == first # <<>> /\ HHas(first[1], "content-encoding") /\ ~HHas(s.st.hdrs, "content-encoding")
OneStart == Len(first) <= 1
NeverUnasked == Gz => s.acc \in {"yes", "maybe"}
NeverTwice == first # <<>> => Len(HAll(first[1], "content-encoding")) <= 1
SmallStaysPlain == Gz => ~(s.single /\ s.n < s.min)
Truthful == ph = "end" /\ s.done => last.k = "body" /\ last.got = s.n /\ ~last.more
LengthTrue == Gz /\ ph = "end" /\ s.done => LET cl == HAll(first[1], "content-length") IN cl = <<>> \/ ParseNat(cl[1]) = raws
CachesSafe == first # <<>> /\ s.depends => Varies(first[1])
ASSUME Accepts(<<"gzip">>) = "yes" /\ Accepts(<<"br, gzip ; q=1">>) = "yes" /\ Accepts(<<"gzip;q=0.0, br">>) = "no" /\ Accepts(<<"xgzip, gzipped">>) = "no"
       /\ Accepts(<<>>) = "no" /\ Accepts(<<"">>) = "no" /\ Accepts(<<"*">>) = "maybe" /\ Accepts(<<"br", "gzip">>) = "maybe"
=============================================================================

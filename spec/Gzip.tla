---------------------------------- MODULE Gzip ----------------------------------
(* One response on its way through the compressing middleware.                 *)
(* Events:                                                                     *)
(*   req   [ae, min]: a request with these Accept-Encoding header lines        *)
(*   app   [m]: the application sends a message; m.k = start | body | other    *)
(*   sent  [m]: the server gets a message                                      *)
(*   end   the application has ended                                           *)
(* A body message of the application: n bytes, more.  A body message sent:     *)
(* got = how many bytes of the application's body the messages so far decode   *)
(* to (as gzip if the sent start says so and the application's did not, else   *)
(* plainly), -1 if they are no prefix of it; raw = bytes sent so far; fin = a  *)
(* compressed stream has ended, without anything after it.                     *)
EXTENDS HeaderList

(* ---- whether a client accepts gzip: "yes", "no" or "maybe" (not pinned down) *)
QZero(q) == Len(q) >= 3 /\ Lower(Upto(q, 2)) = "q=" /\ Trim(From(q, 3)) \in {"0", "0.", "0.0", "0.00", "0.000"}
Item(t) == LET ps == Split(t, ";") IN [name |-> Trim(ps[1]), qs |-> [i \in 1 .. Len(ps) - 1 |-> Trim(ps[i + 1])]]
Items(v) == LET ts == Split(v, ",") IN [i \in 1 .. Len(ts) |-> Item(ts[i])]
Says(it) ==
  IF it.name = "gzip"
  THEN IF it.qs = <<>> THEN "yes" ELSE IF Len(it.qs) = 1 /\ QZero(it.qs[1]) THEN "no" ELSE IF Len(it.qs) = 1 /\ StartsWith(Lower(it.qs[1]), "q=") THEN "yes" ELSE "maybe"
  ELSE IF Lower(it.name) \in {"gzip", "x-gzip", "*"} THEN "maybe" ELSE "none"
OfLine(v) == LET S == {Says(Items(v)[i]) : i \in 1 .. Len(Items(v))} \ {"none"}
             IN IF S = {} THEN "no" ELSE IF S = {"yes"} THEN "yes" ELSE IF S = {"no"} THEN "no" ELSE "maybe"
Accepts(lines) ==
  IF lines = <<>> THEN "no"
  ELSE LET S == {OfLine(lines[i]) : i \in 1 .. Len(lines)} IN IF Cardinality(S) = 1 THEN OfLine(lines[1]) ELSE "maybe"

InitState(cfg) == [acc |-> "no", min |-> 0, st |-> [status |-> 0, hdrs |-> <<>>], app |-> "new", n |-> 0, done |-> FALSE, verdict |-> "", depends |-> FALSE,
                   sent |-> "new", comp |-> FALSE, owed |-> <<>>, single |-> FALSE, cl |-> "", varies |-> FALSE]

Encoded(s) == HHas(s.st.hdrs, "content-encoding")
Events(s) == StartsWith(HGet(s.st.hdrs, "content-type", ""), "text/event-stream")
(* at the application's first body message it is settled *)
Worth(s, m) == ~Encoded(s) /\ ~Events(s) /\ (m.more \/ m.n >= s.min)
Verdict(s, m) == IF ~Worth(s, m) THEN "no" ELSE s.acc

NoVary(h) == HDel(h, "vary")
Tokens(h) == LET vs == HAll(h, "vary") IN UNION {{Lower(Trim(Split(vs[i], ",")[j])) : j \in 1 .. Len(Split(vs[i], ","))} : i \in 1 .. Len(vs)}
(* Vary: what the application said, and Accept-Encoding at most *)
VaryKept(s, h) == Tokens(s.st.hdrs) \subseteq Tokens(h) /\ Tokens(h) \subseteq Tokens(s.st.hdrs) \cup {"accept-encoding"}
Varies(h) == Tokens(h) \cap {"accept-encoding", "*"} # {}
Plain(s, h) == NoVary(h) = NoVary(s.st.hdrs)
Packed(s, h) == HAll(h, "content-encoding") = <<"gzip">>
                /\ NoVary(HDel(HDel(h, "content-encoding"), "content-length")) = NoVary(HDel(s.st.hdrs, "content-length"))

Checks(s, e) ==
  CASE e.t = "app" -> <<<<"start-sent-with-the-first-body", s.app = "body" => s.sent # "new">>, <<"other-messages-pass", s.owed = <<>>>>,
                        <<"compressed-iff-it-should-be", e.m.k = "body" /\ s.app = "start" /\ s.sent # "new" => s.comp \/ Verdict(s, e.m) # "yes">>,
                        <<"varies-on-accept-encoding", e.m.k = "body" /\ s.app = "start" /\ s.sent # "new" /\ Worth(s, e.m) => s.varies>>>>
    [] e.t = "sent" /\ e.m.k = "other" -> <<<<"other-messages-pass-unchanged", s.owed # <<>> /\ s.owed[1] = e.m.type /\ e.m.same>>,
                                           <<"after-the-start-they-followed", e.m.type = "http.response.pathsend" => s.sent # "new">>>>
    [] e.t = "sent" /\ e.m.k = "start" ->
         LET gz == Packed(s, e.m.hdrs) /\ ~Encoded(s) IN
         <<<<"one-start", s.sent = "new" /\ s.app # "new">>, <<"status-kept", e.m.status = s.st.status>>,
           <<"compressed-iff-it-should-be", (s.verdict = "yes" => gz) /\ (s.verdict \in {"", "no", "path"} => ~gz)>>,
           <<"headers-kept", gz \/ Plain(s, e.m.hdrs)>>,
           <<"no-stale-content-length", gz => LET cl == HAll(e.m.hdrs, "content-length") IN Len(cl) <= 1 /\ (Len(cl) = 1 => s.single)>>,
           <<"vary-kept", VaryKept(s, e.m.hdrs)>>,
           <<"varies-on-accept-encoding", (gz \/ s.depends) => Varies(e.m.hdrs)>>>>
    [] e.t = "sent" /\ e.m.k = "body" ->
         <<<<"body-after-start", s.sent = "start" \/ s.sent = "body">>,
           <<"decodes-to-the-original", e.m.got >= 0 /\ e.m.got <= s.n>>,
           <<"ends-with-the-original", ~e.m.more => s.done /\ e.m.got = s.n /\ (s.comp => e.m.fin)>>,
           <<"content-length-of-what-is-sent", e.m.more \/ s.cl = "" \/ ~s.comp \/ ParseNat(s.cl) = e.m.raw>>>>
    [] e.t = "end" -> <<<<"complete-when-the-application-is", s.done => s.sent = "done">>, <<"other-messages-pass", s.owed = <<>>>>,
                        <<"failure-passes-through", e.exc <=> e.raised>>>>
    [] OTHER -> <<>>

Apply(s, e) ==
  CASE e.t = "req" -> [InitState(0) EXCEPT !.acc = Accepts(e.ae), !.min = e.min]
    [] e.t = "app" ->
         (CASE e.m.k = "start" -> [s EXCEPT !.st = [status |-> e.m.status, hdrs |-> e.m.hdrs], !.app = "start"]
            [] e.m.k = "other" -> [s EXCEPT !.owed = Append(@, e.m.type), !.verdict = IF e.m.type = "http.response.pathsend" THEN "path" ELSE @]
            [] e.m.k = "body" -> [s EXCEPT !.app = "body", !.n = @ + e.m.n, !.done = ~e.m.more,
                                           !.verdict = IF s.app = "start" THEN Verdict(s, e.m) ELSE @,
                                           !.depends = IF s.app = "start" THEN Worth(s, e.m) ELSE @,
                                           !.single = IF s.app = "start" THEN ~e.m.more ELSE @])
    [] e.t = "sent" ->
         (CASE e.m.k = "start" -> [s EXCEPT !.sent = "start", !.varies = Varies(e.m.hdrs), !.comp = Packed(s, e.m.hdrs) /\ ~Encoded(s), !.cl = HGet(e.m.hdrs, "content-length", "")]
            [] e.m.k = "body" -> [s EXCEPT !.sent = IF e.m.more THEN "body" ELSE "done"]
            [] OTHER -> [s EXCEPT !.owed = Tail(@)])
    [] OTHER -> s
=============================================================================

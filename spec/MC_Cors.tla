-------------------------------- MODULE MC_Cors --------------------------------
(* Small configurations and requests, every answer the policy admits out of a  *)
(* set of candidates, and a browser (the Fetch standard's checks) looking at   *)
(* it: the browser lets a page at a response exactly if the configuration      *)
(* allows it.                                                                  *)
EXTENDS Cors, Json
CONSTANTS Export, Big, Tiny
VARIABLES cf, ev, ph
vars == <<cf, ev, ph>>
Pat == <<<<<<"lit", "https://">>, <<"word", "">>, <<"lit", ".t">>>>, <<<<"lit", "http://l">>>>>>
Cfgs == {x \in [origins : {<<>>, <<"https://a">>, <<"https://a", "*">>}, regex : {<<>>, Pat}, methods : IF Big THEN {<<"GET">>, <<"GET", "PUT">>, <<"*">>} ELSE {<<"GET">>, <<"*">>},
                headers : {<<>>, <<"X-A">>, <<"*">>}, cred : BOOLEAN, expose : {<<>>, <<"X-E">>}, maxage : {"600"}] : Big \/ (x.expose # <<>>) = x.cred}
Origins == IF Big THEN {"https://a", "https://A", "https://b.t", "https://b.t.u", "http://l", "http://ll"} ELSE {"https://a", "https://A", "https://b.t", "http://ll"}
Reqs == [method : {"GET", "OPTIONS"}, origin : Origins, want : {"", "GET", "PUT", "put"}, asked : {<<>>, <<"X-B, x-a">>, <<"Accept">>, <<"x-a", "x-b">>} \cup (IF Big THEN {<<"x-a">>} ELSE {}), cookie : BOOLEAN]
Opt(b, p) == IF b THEN <<p>> ELSE <<>>
HdrsOf(r) == <<<<"origin", r.origin>>>> \o Opt(r.want # "", <<"access-control-request-method", r.want>>)
             \o [i \in 1 .. Len(r.asked) |-> <<"access-control-request-headers", r.asked[i]>>] \o Opt(r.cookie, <<"cookie", "a=1">>)
NoEvent == [method |-> "", hdrs |-> <<>>, ran |-> FALSE, app |-> [status |-> 0, hdrs |-> <<>>], sent |-> [status |-> 0, hdrs |-> <<>>], same |-> TRUE, text |-> <<>>]
Init == cf \in {x \in Cfgs : Tiny => x.methods = <<"GET">> /\ (x.regex = <<>> \/ x.origins = <<>>)} /\ ev = NoEvent /\ ph = "cfg"
(* requests that make no difference are left out *)
Sane(r) == (Tiny => r.origin \in {"https://a", "https://b.t"} /\ r.asked \in {<<>>, <<"X-B, x-a">>} /\ r.want # "put") /\ (r.want = "" => r.asked = <<>>) /\ (r.method = "GET" => r.want = "" /\ r.asked = <<>>) /\ (r.want # "" => ~r.cookie)
Ask == /\ ph = "cfg" /\ ph' = "asked" /\ cf' = cf
       /\ \E r \in Reqs : Sane(r) /\ ev' = [NoEvent EXCEPT !.method = r.method, !.hdrs = HdrsOf(r)]
                          /\ (Export => PrintT("GEN " \o ToJson([cfg |-> cf, req |-> [method |-> r.method, hdrs |-> HdrsOf(r)]])))
Acaos == {<<>>, <<<<AC \o "origin", "*">>>>, <<<<AC \o "origin", Origin(ev)>>>>, <<<<AC \o "origin", Origin(ev)>>, <<"vary", "Origin">>>>}
Creds == {<<>>, <<<<AC \o "credentials", "true">>>>}
Pre == [status : {200}, text : {<<>>}, hdrs : {a \o b \o m \o h \o <<<<"access-control-max-age", "600">>>> : a \in Acaos, b \in Creds,
          m \in {<<>>, <<<<AC \o "methods", "GET">>>>} \cup (IF Tiny THEN {} ELSE {<<<<AC \o "methods", "GET, PUT">>>>}),
          h \in {<<<<AC \o "headers", "Accept, X-A">>>>, <<<<AC \o "headers", "x-a, x-b">>>>} \cup (IF Tiny THEN {} ELSE {<<>>, <<<<AC \o "headers", "Accept, Accept-Language, Content-Language, Content-Type">>>>})}]
       \cup [status : {400}, text : {<<>>, <<"origin">>, <<"origin", "method">>, <<"headers">>} \cup (IF Tiny THEN {} ELSE {<<"method">>, <<"origin", "headers">>, <<"method", "headers">>, <<"origin", "method", "headers">>}), hdrs : {a \o b : a \in Acaos, b \in Creds}]
Sim == [status : {200}, text : {<<>>}, hdrs : {a \o b \o x : a \in Acaos, b \in Creds, x \in {<<>>, <<<<"access-control-expose-headers", "X-E">>>>}}]
Answer == /\ ~Export /\ ph = "asked" /\ ph' = "done" /\ cf' = cf
          /\ \E x \in (IF Kind(ev) = "preflight" THEN Pre ELSE Sim) :
               LET nx == [ev EXCEPT !.sent = [status |-> x.status, hdrs |-> x.hdrs], !.text = x.text, !.ran = Kind(ev) # "preflight",
                                   !.app = [status |-> IF Kind(ev) = "preflight" THEN 0 ELSE 200, hdrs |-> <<>>]]
               IN ev' = nx
(* the checks are made on states: they keep only the answers that are admitted *)
Admitted == LET cs == Checks(cf, ev) IN \A i \in 1 .. Len(cs) : cs[i][2]
Next == Ask \/ Answer

(* the browser *)
CorsCheck(with) == LET a == Acao(ev.sent.hdrs) IN
  Len(a) = 1 /\ ((a[1] = "*" /\ ~with) \/ (a[1] = Origin(ev) /\ (with => CredTrue(ev))))
PreflightPasses(with) ==
  /\ CorsCheck(with) /\ ev.sent.status = 200
  /\ Wanted(ev) \in Exact(ev.sent.hdrs, AC \o "methods") \cup {"GET", "HEAD", "POST"}
  /\ Requested(ev.hdrs) \subseteq Tokens(ev.sent.hdrs, AC \o "headers") \cup Safelisted
Done == ph = "done" /\ Admitted
Fine == OriginOk(cf, Origin(ev)) /\ Wanted(ev) \in Methods(cf) /\ Requested(ev.hdrs) \subseteq (IF AllHeaders(cf) THEN Requested(ev.hdrs) ELSE HeaderNames(cf))
BrowserPreflight == Done /\ Kind(ev) = "preflight" => (PreflightPasses(FALSE) <=> Fine) /\ (PreflightPasses(TRUE) <=> Fine /\ cf.cred)
BrowserSimple == Done /\ Kind(ev) = "simple" => (CorsCheck(FALSE) => OriginOk(cf, Origin(ev))) /\ (CorsCheck(TRUE) => OriginOk(cf, Origin(ev)) /\ cf.cred)
                 /\ (OriginOk(cf, Origin(ev)) => LET ck == HHas(ev.hdrs, "cookie") IN (~ck => CorsCheck(FALSE)) /\ (ck /\ cf.cred => CorsCheck(TRUE)))
CachesSafe == Done => (Acao(ev.sent.hdrs) = <<>> \/ Star(ev) \/ "origin" \in Vary(ev.sent.hdrs))
ASSUME Fits(Pat[1], "https://b-1.t") /\ ~Fits(Pat[1], "https://b.tt") /\ ~Fits(Pat[1], "https://.t") /\ ~Fits(Pat[1], "https://B.t") /\ Fits(<<<<"any", "">>>>, "") /\ ~Fits(Pat[1], "xhttps://b.t")
=============================================================================

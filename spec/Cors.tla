---------------------------------- MODULE Cors ----------------------------------
(* The cross-origin policy a configuration stands for, and what it requires of *)
(* the answer to a request.  cfg: origins, regex (<<>> or a pattern), methods, *)
(* headers, cred, expose, maxage.  A pattern is a sequence of alternatives,    *)
(* each a sequence of pieces <<kind, text>>: lit | any | word.                 *)
(* Event req: method, hdrs (of the request); ran (the application was called); *)
(* app, sent: [status, hdrs] of the application's start and of the one sent;   *)
(* body, text: same (the body sent is the application's), text (of our own).   *)
EXTENDS HeaderList

Standard == {"DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT"}
Safelisted == {"accept", "accept-language", "content-language", "content-type"}
WordChars == Chars(Lowers) \cup Chars(Digits) \cup {"-"}

(* the places in t a match of the pieces so far can end before *)
After(t, P, p) ==
  CASE p[1] = "lit" -> {i + Len(p[2]) : i \in {j \in P : j + Len(p[2]) <= Len(t) + 1 /\ SubSeq(t, j, j + Len(p[2]) - 1) = p[2]}}
    [] p[1] = "any" -> UNION {{j \in i .. Len(t) + 1 : \A k \in i .. j - 1 : At(t, k) # "\n"} : i \in P}
    [] p[1] = "word" -> UNION {{j \in i + 1 .. Len(t) + 1 : \A k \in i .. j - 1 : At(t, k) \in WordChars} : i \in P}
FitsV(ps, t) == Len(t) + 1 \in Fold(LAMBDA P, p : After(t, P, p), {1}, ps)
Fits(ps, t) == The({FitsV(ps, x) : x \in {t}})

AllOrigins(c) == "*" \in SeqSet(c.origins)
Methods(c) == IF "*" \in SeqSet(c.methods) THEN Standard ELSE SeqSet(c.methods)
AllHeaders(c) == "*" \in SeqSet(c.headers)
HeaderNames(c) == Safelisted \cup {Lower(c.headers[i]) : i \in 1 .. Len(c.headers)}
OriginOk(c, o) == AllOrigins(c) \/ o \in SeqSet(c.origins) \/ \E i \in 1 .. Len(c.regex) : Fits(c.regex[i], o)
ItemsOf(vs) == UNION {{Lower(Trim(Split(vs[i], ",")[j])) : j \in 1 .. Len(Split(vs[i], ","))} : i \in 1 .. Len(vs)}
Requested(h) == ItemsOf(HAll(h, "access-control-request-headers"))
(* an empty item between commas is no header; whether it is refused is left open *)
HeadersOk(c, h) == AllHeaders(c) \/ Requested(h) \ {""} \subseteq HeaderNames(c)
HeadersOpen(c, h) == ~AllHeaders(c) /\ "" \in Requested(h) /\ HAll(h, "access-control-request-headers") \notin {<<>>, <<"">>}

Kind(e) == IF ~HHas(e.hdrs, "origin") THEN "none"
           ELSE IF e.method = "OPTIONS" /\ HHas(e.hdrs, "access-control-request-method") THEN "preflight" ELSE "simple"
Origin(e) == HGet(e.hdrs, "origin", "")
Wanted(e) == HGet(e.hdrs, "access-control-request-method", "")

AC == "access-control-allow-"
Grants == {AC \o x : x \in {"origin", "credentials", "methods", "headers"}} \cup {"access-control-expose-headers", "access-control-max-age"}
Rest(h) == SelectSeq(h, LAMBDA p : p[1] \notin Grants \cup {"vary"})
Acao(h) == HAll(h, AC \o "origin")
Vary(h) == ItemsOf(HAll(h, "vary")) \ {""}
Echo(e) == Acao(e.sent.hdrs) = <<Origin(e)>> /\ Vary(e.sent.hdrs) \cap {"origin", "*"} # {}
Star(e) == Acao(e.sent.hdrs) = <<"*">>
Tokens(h, n) == ItemsOf(HAll(h, n)) \ {""}
Exact(h, n) == LET vs == HAll(h, n) IN UNION {{Trim(Split(vs[i], ",")[j]) : j \in 1 .. Len(Split(vs[i], ","))} : i \in 1 .. Len(vs)} \ {""}
CredTrue(e) == HAll(e.sent.hdrs, AC \o "credentials") = <<"true">>
CredNone(e) == HAll(e.sent.hdrs, AC \o "credentials") = <<>>

Common(c, e) ==
  LET h == e.sent.hdrs ok == OriginOk(c, Origin(e)) IN
  <<<<"origin-granted-iff-allowed", IF ok THEN Acao(h) \in {<<"*">>, <<Origin(e)>>} ELSE Acao(h) = <<>>>>,
    <<"star-only-for-all-origins", Star(e) /\ Origin(e) # "*" => AllOrigins(c)>>,
    <<"echoed-origin-varies", ok /\ ~Star(e) => Echo(e)>>,
    <<"credentials-only-if-configured", IF ~c.cred THEN CredNone(e) ELSE CredTrue(e) \/ (~ok /\ CredNone(e))>>>>

Preflight(c, e) ==
  LET h == e.sent.hdrs
      mok == Wanted(e) \in Methods(c)
      ook == OriginOk(c, Origin(e))
      hok == HeadersOk(c, e.hdrs)
  IN Common(c, e) \o
     <<<<"preflight-never-reaches-the-application", ~e.ran>>,
       <<"preflight-succeeds-iff-allowed", e.sent.status \in {200, 400} /\ (HeadersOpen(c, e.hdrs) \/ (e.sent.status = 200 <=> (ook /\ mok /\ hok))) /\ (e.sent.status = 200 => ook /\ mok /\ hok)>>,
       <<"failures-named", e.sent.status = 400 => ("origin" \in SeqSet(e.text) <=> ~ook) /\ ("method" \in SeqSet(e.text) <=> ~mok) /\ (HeadersOpen(c, e.hdrs) \/ ("headers" \in SeqSet(e.text) <=> ~hok))>>,
       <<"explicit-origin-with-credentials", c.cred /\ ook => Echo(e)>>,
       <<"methods-as-configured", Exact(h, AC \o "methods") \subseteq Methods(c) /\ (e.sent.status = 200 => Wanted(e) \in Exact(h, AC \o "methods"))>>,
       <<"headers-as-configured", (AllHeaders(c) \/ Tokens(h, AC \o "headers") \subseteq HeaderNames(c))
                                  /\ (AllHeaders(c) => Tokens(h, AC \o "headers") \subseteq HeaderNames(c) \cup Requested(e.hdrs))
                                  /\ (e.sent.status = 200 => Requested(e.hdrs) \ {""} \subseteq Tokens(h, AC \o "headers"))>>,
       <<"max-age-as-configured", e.sent.status = 200 => HAll(h, "access-control-max-age") = <<c.maxage>>>>>>

Simple(c, e) ==
  LET h == e.sent.hdrs ok == OriginOk(c, Origin(e)) IN
  Common(c, e) \o
  <<<<"application-answers", e.ran /\ e.sent.status = e.app.status /\ e.same>>,
    <<"other-headers-kept", Rest(h) = Rest(e.app.hdrs) /\ Vary(e.app.hdrs) \subseteq Vary(h) /\ Vary(h) \subseteq Vary(e.app.hdrs) \cup {"origin"}>>,
    <<"no-star-for-cookies", AllOrigins(c) /\ HHas(e.hdrs, "cookie") => Echo(e)>>,
    <<"exposed-as-configured", LET x == Exact(h, "access-control-expose-headers") IN x = SeqSet(c.expose) \/ (~ok /\ x = {})>>>>

Untouched(e) == <<<<"without-origin-untouched", e.ran /\ e.sent = e.app /\ e.same>>>>

InitState(cfg) == cfg
Checks(s, e) == CASE Kind(e) = "none" -> Untouched(e) [] Kind(e) = "preflight" -> Preflight(s, e) [] Kind(e) = "simple" -> Simple(s, e)
Apply(s, e) == s
=============================================================================

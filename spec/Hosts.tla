---------------------------------- MODULE Hosts ----------------------------------
(* The two middlewares that decide by a request's host or scheme whether the   *)
(* application is reached.  cfg.kind "trusted" [allowed, www] or "https".      *)
(* Event req: type (http | websocket | lifespan), scheme, host (Host header,   *)
(* "-" if none), path, query (the parts of the URL asked for, decoded);        *)
(* same (the application, if reached, got the very scope), ran, status (of the *)
(* answer, also of a denied websocket), to = [scheme, netloc, path, query] of  *)
(* the Location ("" if none).                                                  *)
EXTENDS Str

HexDot == Chars("0123456789abcdefABCDEF:.")
(* host [":" port]: the host, or "!" *)
Bracketed(h) == LET i == Find(h, "]") IN
  IF i > 2 /\ Chars(SubSeq(h, 2, i - 1)) \subseteq HexDot /\ (i = Len(h) \/ (At(h, i + 1) = ":" /\ Chars(From(h, i + 2)) \subseteq Chars(Digits))) THEN Upto(h, i) ELSE "!"
Named(h) == LET i == Find(h, ":") n == IF i = 0 THEN h ELSE Upto(h, i - 1) IN
  IF Chars(n) \cap ({"[", "]", "/", "?", "#", "@", "\\"} \cup {" ", "\t", "\n", "\r", "\f"}) = {} /\ (i = 0 \/ Chars(From(h, i + 1)) \subseteq Chars(Digits)) THEN n ELSE "!"
HostOf(h) == IF h = "-" THEN "" ELSE IF StartsWith(h, "[") THEN Bracketed(h) ELSE Named(h)
PortOf(h) == LET n == HostOf(h) IN IF Len(n) + 1 >= Len(h) THEN "" ELSE From(h, Len(n) + 2)

Under(h, p) == StartsWith(p, "*.") /\ EndsWith(h, From(p, 2)) /\ Len(h) > Len(p) - 1
Allowed(c, h) == \E i \in 1 .. Len(c.allowed) : c.allowed[i] = "*" \/ (h # "!" /\ (h = c.allowed[i] \/ Under(h, c.allowed[i])))
(* left open: hosts that differ in case only, and the empty label *)
Open(c, h) == \E i \in 1 .. Len(c.allowed) : LET p == Lower(c.allowed[i]) IN Lower(h) = p \/ Under(Lower(h), p) \/ (StartsWith(p, "*.") /\ Lower(h) = From(p, 2)) \/ "www." \o Lower(h) = p
OpenCase(c, h) == h # "!" /\ ~Allowed(c, h) /\ Open([c EXCEPT !.allowed = SelectSeq(c.allowed, LAMBDA p : "www." \o h # p)], h)
Listed(c, h) == h # "!" /\ "www." \o h \in SeqSet(c.allowed)
Nowhere == [scheme |-> "", netloc |-> "", path |-> "", query |-> ""]

TrustedOutcome(c, e) ==
  LET h == HostOf(e.host) IN
  IF e.type = "lifespan" \/ Allowed(c, h) THEN "pass" ELSE IF Listed(c, h) /\ c.www THEN "www" ELSE "400"
Secure(x) == CASE x = "http" -> "https" [] x = "ws" -> "wss" [] OTHER -> x
SecureHost(h) == IF PortOf(h) \in {"80", "443"} THEN HostOf(h) ELSE h
HttpsOutcome(e) == IF e.type # "lifespan" /\ e.scheme \in {"http", "ws"} THEN "https" ELSE "pass"
Outcome(c, e) == IF c.kind = "trusted" THEN TrustedOutcome(c, e) ELSE HttpsOutcome(e)
Target(c, e) == IF Outcome(c, e) = "www" THEN [scheme |-> e.scheme, netloc |-> "www." \o e.host, path |-> e.path, query |-> e.query]
                ELSE IF Outcome(c, e) = "https" THEN [scheme |-> Secure(e.scheme), netloc |-> SecureHost(e.host), path |-> e.path, query |-> e.query] ELSE Nowhere

InitState(cfg) == cfg
Checks(c, e) ==
  LET o == Outcome(c, e) open == c.kind = "trusted" /\ OpenCase(c, HostOf(e.host)) IN
  <<<<"reaches-the-application-iff-it-may", open \/ (e.ran <=> o = "pass")>>,
    <<"passes-unchanged", e.ran => e.same>>,
    <<"answer", open \/ CASE o = "pass" -> TRUE [] o = "www" -> e.status \in {301, 302, 303, 307, 308} [] o = "https" -> e.status = 307 [] OTHER -> e.status = 400>>,
    <<"redirected-to-the-same-url", open \/ o = "pass" \/ e.to = Target(c, e)>>>>
Apply(c, e) == c
=============================================================================

--------------------------------- MODULE Session ---------------------------------
(* Sessions kept in signed cookies: one application, any number of browsers.   *)
(* cfg: name, path, domain ("" none), maxage (0 none), samesite, secure.       *)
(* Event req: at = time; typ = http | websocket; sent = number of the cookie   *)
(* presented (0 none), how = asis | altered | forged (signed with another key) *)
(* | garbage; reads, left = pairs <<key, value>> in the session before and     *)
(* after the application's changes ops (<<"set", k, v>>, <<"del", k>>,         *)
(* <<"clear">>); end = ok | refused (an HTTP error) | boom (no response of the *)
(* application); set = none | cookie | expire, n = number of Set-Cookie        *)
(* headers for the session, attrs of it, dead (it expires at once), kept = the *)
(* application's own headers are all there, exc = something was raised.        *)
EXTENDS Str

InitState(cfg) == [c |-> cfg, issued |-> <<>>]
Fresh(s, e) == s.c.maxage = 0 \/ (e.at - s.issued[e.sent].at <= s.c.maxage /\ e.at >= s.issued[e.sent].at)
Valid(s, e) == e.sent > 0 /\ e.how = "asis" /\ Fresh(s, e)
Given(s, e) == IF Valid(s, e) THEN s.issued[e.sent].data ELSE {}
Keyed(k, S) == {x \in S : x[1] = k}
One(S, o) == CASE o[1] = "clear" -> {} [] o[1] = "del" -> S \ Keyed(o[2], S) [] o[1] = "set" -> (S \ Keyed(o[2], S)) \cup {<<o[2], o[3]>>}
Left(s, e) == Fold(LAMBDA a, o : One(a, o), Given(s, e), e.ops)
Answered(e) == e.typ = "http" /\ e.end # "boom"
Means(s, e) == IF ~Answered(e) THEN "none" ELSE IF Left(s, e) # {} THEN "cookie" ELSE IF Valid(s, e) THEN "expire" ELSE "none"
Attrs(c) == {<<"path", c.path>>, <<"httponly", "">>, <<"samesite", c.samesite>>}
            \cup (IF c.secure THEN {<<"secure", "">>} ELSE {}) \cup (IF c.domain # "" THEN {<<"domain", c.domain>>} ELSE {})
Life(c) == IF c.maxage = 0 THEN {} ELSE {<<"max-age", ToString(c.maxage)>>}
Checks(s, e) ==
  <<<<"reads-exactly-what-was-stored", Valid(s, e) => SeqSet(e.reads) = Given(s, e)>>,
    <<"nothing-from-a-bad-cookie", ~Valid(s, e) => e.reads = <<>>>>,
    <<"never-an-error", e.exc = (e.end = "boom")>>,
    <<"a-dictionary", SeqSet(e.left) = Left(s, e)>>,
    <<"cookie-iff-filled", e.set = Means(s, e)>>,
    <<"one-cookie", e.n = (IF Means(s, e) = "none" THEN 0 ELSE 1)>>,
    <<"configured-attributes", e.set = "cookie" => SeqSet(e.attrs) = Attrs(s.c) \cup Life(s.c) /\ ~e.dead>>,
    <<"expires-the-same-cookie", e.set = "expire" => SeqSet(e.attrs) = Attrs(s.c) /\ e.dead>>,
    <<"other-headers-kept", e.kept>>>>
Apply(s, e) == IF e.set = "cookie" THEN [s EXCEPT !.issued = Append(@, [data |-> Left(s, e), at |-> e.at])] ELSE s
=============================================================================

-------------------------------- MODULE Cookies --------------------------------
(* Cookies of requests, and the cookies a response sets, as a browser keeps them. *)
(* Text outside printable ASCII is written {hh} (its code point in hex).          *)
(* Events: parse(headers, cookies): the Cookie headers of a request and the        *)
(* mapping it gives; new(hdrs): a response and its headers; set(a, hdrs, gap,       *)
(* date): a cookie set with arguments a (delete: the same, with a.del), the          *)
(* headers afterwards, how many seconds from now its expiry lies (dated: it is a      *)
(* date), how the requested expiry date is written; sent(hdrs): the headers of     *)
(* the response as sent; back(cookies): what a request shows to which a browser that  *)
(* obeyed every Set-Cookie header so far attached its cookies.                        *)
EXTENDS Str

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
HexDigits == "0123456789abcdef"
Chr(n) == IF n >= 32 /\ n < 127 THEN At(Ascii, n - 31) ELSE "{" \o At(HexDigits, n \div 16 + 1) \o At(HexDigits, (n % 16) + 1) \o "}"
Octal(t, i) == /\ i + 2 <= Len(t) /\ At(t, i) \in {"0", "1", "2", "3"} /\ {At(t, i + 1), At(t, i + 2)} \subseteq Chars("01234567")
OctalValue(t, i) == 64 * ParseNat(At(t, i)) + 8 * ParseNat(At(t, i + 1)) + ParseNat(At(t, i + 2))

(* ---- a value as it is written in a header *)
Unescape(t) == Fold(LAMBDA a, i :
     IF a.skip > 0 THEN [a EXCEPT !.skip = @ - 1]
     ELSE IF At(t, i) = "\\" /\ Octal(t, i + 1) THEN [out |-> a.out \o Chr(OctalValue(t, i + 1)), skip |-> 3]
     ELSE IF At(t, i) = "\\" /\ i < Len(t) THEN [out |-> a.out \o At(t, i + 1), skip |-> 1]
     ELSE [a EXCEPT !.out = @ \o At(t, i)], [out |-> "", skip |-> 0], Upto1(Len(t))).out
UnquoteV(t) == IF Len(t) >= 2 /\ StartsWith(t, "\"") /\ EndsWith(t, "\"") THEN The({Unescape(x) : x \in {SubSeq(t, 2, Len(t) - 1)}}) ELSE t
Unquote(t) == The({UnquoteV(x) : x \in {t}})

(* ---- the cookies of a request: pairs in order, empty ones ignored *)
PairV(c) == LET i == Find(c, "=") IN IF i = 0 THEN <<"", Trim(c)>> ELSE <<Trim(Upto(c, i - 1)), Trim(From(c, i + 1))>>
RawPairs(h) == SelectSeq([i \in 1 .. Len(Split(h, ";")) |-> PairV(Split(h, ";")[i])], LAMBDA p : p # <<"", "">>)
Cookies(h) == LET ps == RawPairs(h) IN [i \in 1 .. Len(ps) |-> <<ps[i][1], Unquote(ps[i][2])>>]
AllCookies(hs) == FlatSeq([i \in 1 .. Len(hs) |-> Cookies(hs[i])])
LastWins(q) == {<<k, Last(GetAll(q, k))>> : k \in Keys(q)}
SameMapping(m, q) == Len(m) = Cardinality(Keys(m)) /\ SeqSet(m) = LastWins(q)

(* ---- a Set-Cookie header *)
Attr(c) == LET i == Find(c, "=") IN IF i = 0 THEN <<Lower(Trim(c)), "None">> ELSE <<Lower(Trim(Upto(c, i - 1))), Trim(From(c, i + 1))>>
ParseSetV(ps) == [name |-> PairV(ps[1])[1], raw |-> PairV(ps[1])[2], whole |-> ps[1], attrs |-> [i \in 1 .. Len(ps) - 1 |-> Attr(ps[i + 1])]]
ParseSet(h) == The({ParseSetV(x) : x \in {Split(h, ";")}})
Given(k, v) == IF v = "None" \/ v = "" THEN {} ELSE {<<k, v>>}
Flag(k, b) == IF b THEN {<<k, "None">>} ELSE {}
(* what is asked for; how an expiry is written is a matter of its own *)
Wanted(a) == Given("max-age", IF a.del THEN "0" ELSE a.maxage) \cup Given("path", a.path) \cup Given("domain", a.domain) \cup Given("samesite", a.samesite)
               \cup Flag("secure", a.secure) \cup Flag("httponly", a.httponly)
ExpiryKind(a) == IF a.del THEN "in" ELSE a.expires
HasExpiry(s) == \E i \in 1 .. Len(s.attrs) : s.attrs[i][1] = "expires"
Expiry(s) == GetAll(s.attrs, "expires")[1]
Gone(a) == a.del \/ (IF a.maxage # "None" THEN a.gone ELSE a.past)

(* ---- a browser *)
Norm(t) == IF t = "" THEN "None" ELSE t
Key(a) == <<a.name, Norm(a.domain), Norm(a.path)>>
JarV(jar, a) == LET rest == SelectSeq(jar, LAMBDA c : c[1] # Key(a)) IN IF Gone(a) THEN rest ELSE Append(rest, <<Key(a), a.value>>)
Shown(jar) == [i \in 1 .. Len(jar) |-> <<jar[i][1][1], jar[i][2]>>]

InitState(cfg) == [hdrs |-> <<>>, jar |-> <<>>]
SetChecks(s, e, hs) ==
  LET a == e.a
      kept == Len(hs) = Len(s.hdrs) + 1 /\ SubSeq(hs, 1, Len(s.hdrs)) = s.hdrs /\ Last(hs)[1] = "set-cookie"
      c == ParseSet(Last(hs)[2])
      k == ExpiryKind(a)
  IN << <<"one-header-apart", kept>>,
        <<"name-and-value", kept => c.name = a.name /\ Unquote(c.raw) = a.value /\ c.whole = Trim(c.whole)>>,
        <<"read-back", kept => SameMapping(<< <<a.name, a.value>> >>, Cookies(c.whole))>>,
        <<"attributes", kept => /\ {x \in SeqSet(c.attrs) : x[1] # "expires"} = Wanted(a)
                                /\ Cardinality(Keys(c.attrs)) = Len(c.attrs)>>,
        <<"expiry", kept => /\ HasExpiry(c) = (k # "None")
                            /\ (k = "in" => e.dated /\ e.gap <= a.due + 3 /\ a.due <= e.gap + 3)
                            /\ (k \in {"date", "text"} => Expiry(c) = e.date)>> >>
Checks(s, e) ==
  CASE e.t = "parse" -> << <<"cookies-of-request", \A m \in {AllCookies(e.headers)} : SameMapping(e.cookies, m)>> >>
    [] e.t = "new" -> <<>>
    [] e.t = "set" -> SetChecks(s, e, e.hdrs)
    [] e.t = "sent" -> << <<"sent-as-set", e.hdrs = s.hdrs>> >>
    [] e.t = "back" -> << <<"comes-back", SameMapping(e.cookies, Shown(s.jar))>> >>
    [] OTHER -> << <<"known-event", FALSE>> >>
Apply(s, e) ==
  CASE e.t = "new" -> [s EXCEPT !.hdrs = e.hdrs]
    [] e.t = "set" -> [hdrs |-> e.hdrs, jar |-> JarV(s.jar, e.a)]
    [] OTHER -> s
=============================================================================

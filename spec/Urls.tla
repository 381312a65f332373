---------------------------------- MODULE Urls ----------------------------------
(* URLs as components, the URL of a request, and edits.                           *)
(* Events: scope(c, url, base): the URLs of a request, c: [scheme, host (header    *)
(* or "None"), server ("None" or its address), port, path (decoded), query, root]; *)
(* start(url, parts) / edit(op, args, after, parts): a URL and an edit of it, with *)
(* what the components of the result are said to be; repr(inner): how it is shown. *)
(* args: <<name, value>>...; of query edits percent-encoded in full; "None" is no  *)
(* value.                                                                          *)
EXTENDS Str

(* ---- components *)
Alpha == Chars(Uppers \o Lowers)
SchemeChars == Alpha \cup Chars(Digits) \cup {"+", "-", "."}
First(t, S) == The({IF P = {} THEN Len(t) + 1 ELSE Least(P) : P \in {{i \in 1 .. Len(t) : At(t, i) \in S}}})
ParseNet(n) ==
  LET at == RFind(n, "@")
      ui == Upto(n, at - 1)
      hp == From(n, at + 1)
      c == Find(ui, ":")
      br == IF StartsWith(hp, "[") THEN Find(hp, "]") ELSE 0
      pc == IF br > 0 THEN (IF StartsWith(From(hp, br + 1), ":") THEN br + 1 ELSE 0) ELSE Find(hp, ":")
      port == IF pc = 0 THEN "" ELSE From(hp, pc + 1)
  IN [user |-> IF at = 0 THEN "None" ELSE IF c = 0 THEN ui ELSE Upto(ui, c - 1), pass |-> IF at = 0 \/ c = 0 THEN "None" ELSE From(ui, c + 1),
      host |-> IF pc = 0 THEN hp ELSE Upto(hp, pc - 1), port |-> IF port = "" THEN "None" ELSE port]
ParseUrlV(u) ==
  LET i == Find(u, ":")
      hasS == i > 1 /\ At(u, 1) \in Alpha /\ \A k \in 1 .. i - 1 : At(u, k) \in SchemeChars
      r1 == IF hasS THEN From(u, i + 1) ELSE u
      hasN == StartsWith(r1, "//")
      r2 == IF hasN THEN From(r1, 3) ELSE r1
      e == IF hasN THEN First(r2, {"/", "?", "#"}) ELSE 1
      net == Upto(r2, e - 1)
      r3 == From(r2, e)
      h == Find(r3, "#")
      r4 == IF h = 0 THEN r3 ELSE Upto(r3, h - 1)
      q == Find(r4, "?")
  IN [scheme |-> IF hasS THEN Lower(Upto(u, i - 1)) ELSE "", path |-> IF q = 0 THEN r4 ELSE Upto(r4, q - 1), query |-> IF q = 0 THEN "" ELSE From(r4, q + 1), fragment |-> IF h = 0 THEN "" ELSE From(r3, h + 1)] @@ The({ParseNet(x) : x \in {net}})
ParseUrl(u) == The({ParseUrlV(x) : x \in {u}})

NetOf(c) == (IF c.user = "None" THEN "" ELSE c.user \o (IF c.pass = "None" THEN "" ELSE ":" \o c.pass) \o "@") \o c.host \o (IF c.port = "None" THEN "" ELSE ":" \o c.port)
Build(c) == (IF c.scheme = "" THEN "" ELSE c.scheme \o ":") \o (IF NetOf(c) = "" THEN "" ELSE "//" \o NetOf(c)) \o c.path \o (IF c.query = "" THEN "" ELSE "?" \o c.query) \o (IF c.fragment = "" THEN "" ELSE "#" \o c.fragment)

(* ---- replacing: only what is named *)
Bracketed(h) == IF Cardinality(Places(h, ":")) > 1 /\ ~StartsWith(h, "[") THEN "[" \o h \o "]" ELSE h
Rooted(c) == IF c.path # "" /\ NetOf(c) # "" /\ ~StartsWith(c.path, "/") THEN [c EXCEPT !.path = "/" \o @] ELSE c
Set1(c, n, v) ==
  CASE n = "netloc" -> ParseNet(v) @@ c
    [] n = "username" -> [c EXCEPT !.user = v, !.pass = IF v = "None" THEN "None" ELSE @]
    [] n = "password" -> [c EXCEPT !.pass = v]
    [] n = "hostname" -> [c EXCEPT !.host = Bracketed(v)]
    [] n = "port" -> [c EXCEPT !.port = v]
    [] n = "scheme" -> [c EXCEPT !.scheme = v]
    [] n = "path" -> [c EXCEPT !.path = v]
    [] n = "query" -> [c EXCEPT !.query = v]
    [] n = "fragment" -> [c EXCEPT !.fragment = v]
(* (a user without password comes before its password) *)
Order == <<"netloc", "scheme", "username", "password", "hostname", "port", "path", "query", "fragment">>
ReplaceV(c, args) == Rooted(Fold(LAMBDA a, n : Fold(LAMBDA b, kv : IF kv[1] = n THEN Set1(b, n, kv[2]) ELSE b, a, args), c, Order))
Replace(c, args) == The({ReplaceV(x, args) : x \in {c}})

(* ---- query parameters, as fully percent-encoded text *)
Hex == "0123456789ABCDEF"
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Unreserved == Alpha \cup Chars(Digits) \cup {"-", "_", ".", "~"}
Code(c) == 31 + Find(Ascii, c)
Enc(n) == "%" \o At(Hex, (n \div 16) + 1) \o At(Hex, (n % 16) + 1)
Val(c) == Find(Hex, UpperC(c)) - 1
IsHex(c) == c # "" /\ Find(Hex, UpperC(c)) > 0
One(n) == IF n > 31 /\ n < 127 /\ At(Ascii, n - 31) \in Unreserved THEN At(Ascii, n - 31) ELSE Enc(n)
(* the same text with every byte written in one way *)
NormV(t) ==
  Fold(LAMBDA a, i : IF i <= a.upto THEN a
                     ELSE IF At(t, i) = "%" /\ i + 2 <= Len(t) /\ IsHex(At(t, i + 1)) /\ IsHex(At(t, i + 2)) THEN [upto |-> i + 2, out |-> a.out \o One(16 * Val(At(t, i + 1)) + Val(At(t, i + 2)))]
                     ELSE IF At(t, i) = "+" THEN [upto |-> i, out |-> a.out \o "%20"]
                     ELSE IF At(t, i) \in Unreserved THEN [upto |-> i, out |-> a.out \o At(t, i)] ELSE [upto |-> i, out |-> a.out \o Enc(Code(At(t, i)))],
       [upto |-> 0, out |-> ""], Upto1(Len(t))).out
Norm(t) == The({NormV(x) : x \in {t}})
Pair(p) == The({IF i = 0 THEN <<Norm(p), "">> ELSE <<Norm(Upto(p, i - 1)), Norm(From(p, i + 1))>> : i \in {Find(p, "=")}})
PairsV(q) == LET parts == SelectSeq(Split(q, "&"), LAMBDA x : x # "") IN [i \in 1 .. Len(parts) |-> Pair(parts[i])]
Pairs(q) == The({PairsV(x) : x \in {q}})
Keys1(args) == {args[i][1] : i \in 1 .. Len(args)}
Without(ps, ks) == SelectSeq(ps, LAMBDA p : p[1] \notin ks)
Edited(op, ps, args) == CASE op = "include" -> Without(ps, Keys1(args)) \o args [] op = "replaceq" -> args [] op = "remove" -> Without(ps, Keys1(args)) [] OTHER -> ps

(* ---- the URL of a request *)
Quoted(p) == Fold(LAMBDA a, i : a \o (IF At(p, i) = "%" THEN "%25" ELSE IF At(p, i) = "?" THEN "%3F" ELSE IF At(p, i) = "#" THEN "%23" ELSE IF At(p, i) = "\t" THEN "%09" ELSE IF At(p, i) = "\n" THEN "%0A" ELSE IF At(p, i) = "\r" THEN "%0D" ELSE At(p, i)), "", Upto1(Len(p)))
Default(s) == CASE s \in {"http", "ws"} -> "80" [] s \in {"https", "wss"} -> "443"
Authority(c) == IF c.host # "None" THEN c.host ELSE Bracketed(c.server) \o (IF c.port = Default(c.scheme) THEN "" ELSE ":" \o c.port)
Rebuilt(c, path, query) == (IF c.host = "None" /\ c.server = "None" THEN "" ELSE c.scheme \o "://" \o Authority(c)) \o Quoted(path) \o (IF query = "" THEN "" ELSE "?" \o query)
Base(c) == Rebuilt(c, IF EndsWith(c.root, "/") THEN c.root ELSE c.root \o "/", "")

(* ---- what is said of a URL agrees with it *)
Bare(h) == IF StartsWith(h, "[") THEN SubSeq(h, 2, Len(h) - 1) ELSE h
OrNone(h) == IF h = "" THEN "None" ELSE h
Said(c) == [scheme |-> c.scheme, netloc |-> NetOf(c), path |-> c.path, query |-> c.query, fragment |-> c.fragment, username |-> c.user, password |-> c.pass, hostname |-> OrNone(Lower(Bare(c.host))), port |-> c.port,
            secure |-> c.scheme \in {"https", "wss"}]
Tidy(c) == <<c.scheme, c.user, c.pass, c.host, c.port, c.path, c.query, c.fragment>>
NoQuery(c) == [c EXCEPT !.query = ""]

Result(s, e) == IF e.op = "replace" THEN Replace(ParseUrl(s.url), e.args) ELSE ParseUrl(s.url)
InitState(cfg) == [url |-> ""]
Checks(s, e) ==
  CASE e.t = "scope" ->
         <<<<"url-of-the-request", e.url = Rebuilt(e.c, e.c.path, e.c.query)>>, <<"base-url", e.base = Base(e.c)>>, <<"path-stays-path", e.c.plain => e.path = Quoted(e.c.path)>>, <<"query-stays-query", e.c.plain => e.query = e.c.query>>>>
    [] e.t = "start" -> <<<<"components-said", e.parts = Said(ParseUrl(e.url))>>>>
    [] e.t = "edit" ->
         IF e.op = "replace" THEN <<<<"replaces-what-is-named-only", Tidy(ParseUrl(e.after)) = Tidy(Result(s, e))>>, <<"components-said", e.parts = Said(ParseUrl(e.after))>>, <<"original-unchanged", e.before = s.url>>>>
         ELSE <<<<"only-the-query-changes", Tidy(NoQuery(ParseUrl(e.after))) = Tidy(Rooted(NoQuery(ParseUrl(s.url))))>>, <<"query-parameters", Pairs(ParseUrl(e.after).query) = Edited(e.op, Pairs(ParseUrl(s.url).query), e.args)>>,
                <<"components-said", e.parts = Said(ParseUrl(e.after))>>, <<"original-unchanged", e.before = s.url>>>>
    [] e.t = "make" -> <<<<"made-of-its-components", Tidy(ParseUrl(e.url)) = Tidy(Replace(ParseUrl(""), e.args))>>>>
    [] e.t = "repr" -> <<<<"password-masked", IF ParseUrl(s.url).pass \in {"None", ""} THEN e.inner = s.url ELSE Tidy(ParseUrl(e.inner)) = Tidy(Rooted([ParseUrl(s.url) EXCEPT !.pass = "********"]))>>>>
    [] OTHER -> <<>>
Apply(s, e) == CASE e.t = "start" -> [s EXCEPT !.url = e.url] [] e.t = "edit" -> [s EXCEPT !.url = e.after] [] OTHER -> s
=============================================================================

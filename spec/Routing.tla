------------------------------- MODULE Routing -------------------------------
(* Route tables, what a request selects in them, what the selected application *)
(* sees of it, and what a name reverses to.                                    *)
(*                                                                             *)
(* A pattern is a sequence of tokens [k, v, c]: a literal (k = "l", text v) or *)
(* a parameter (k = "p", name v, convertor c).  A route is a record            *)
(*   route: kind "route", pat, any (accepts all methods), methods, id, name    *)
(*   ws:    kind "ws", pat, id, name                                           *)
(*   mount: kind "mount", pat, name, leaf (an application id) or routes, slash,*)
(*          dflt (the application for what no route takes, or "")              *)
(*   host:  kind "host",  pat, name, routes, slash, dflt, port (":8000" or "")  *)
(* Names are <<>> (none) or <<name>>.                                          *)
EXTENDS Str

Hex == Chars("0123456789abcdefABCDEF")
IsHex(t) == Chars(t) \subseteq Hex

(* a UUID written with or without its dashes: 8-4-4-4-12 hex digits *)
RECURSIVE UuidFrom(_, _, _)
UuidFrom(t, sizes, first) ==
  IF sizes = <<>> THEN t = ""
  ELSE LET u == IF ~first /\ StartsWith(t, "-") THEN From(t, 2) ELSE t
           n == Head(sizes)
       IN Len(u) >= n /\ IsHex(Upto(u, n)) /\ UuidFrom(From(u, n + 1), Tail(sizes), FALSE)
IsUuid(t) == Len(t) >= 32 /\ Len(t) <= 36 /\ UuidFrom(t, <<8, 4, 4, 4, 12>>, TRUE)

IsFloat(t) == LET d == Find(t, ".") IN
              IF d = 0 THEN IsDigits(t) ELSE IsDigits(Upto(t, d - 1)) /\ IsDigits(From(t, d + 1))

(* what a convertor accepts *)
Accepts(c, t) ==
  CASE c = "str"   -> t # "" /\ "/" \notin Chars(t)
    [] c = "path"  -> "\n" \notin Chars(t)
    [] c = "int"   -> IsDigits(t)
    [] c = "float" -> IsFloat(t)
    [] c = "uuid"  -> IsUuid(t)

(* and the value it stands for, as <<type, canonical text>> *)
RECURSIVE StripZeros(_)
StripZeros(t) == IF Len(t) > 1 /\ At(t, 1) = "0" THEN StripZeros(From(t, 2)) ELSE t
RECURSIVE StripTail(_)
StripTail(t) == IF Len(t) > 1 /\ At(t, Len(t)) = "0" THEN StripTail(Upto(t, Len(t) - 1)) ELSE t
RECURSIVE NoDash(_)
NoDash(t) == Join(Split(t, "-"), "")
Convert(c, t) ==
  CASE c = "int"   -> <<"int", StripZeros(t)>>
    [] c = "float" -> LET d == Find(t, ".") IN
                      IF d = 0 THEN <<"float", StripZeros(t) \o ".0">>
                      ELSE <<"float", StripZeros(Upto(t, d - 1)) \o "." \o StripTail(From(t, d + 1))>>
    [] c = "uuid"  -> LET h == Lower(NoDash(t)) IN
                      <<"UUID", SubSeq(h, 1, 8) \o "-" \o SubSeq(h, 9, 12) \o "-" \o SubSeq(h, 13, 16)
                                \o "-" \o SubSeq(h, 17, 20) \o "-" \o SubSeq(h, 21, 32)>>
    [] OTHER       -> <<"str", t>>

(* Match(pat, t) is <<>> if the pattern does not match the whole of t, else    *)
(* <<parameters>>; where several readings exist, earlier parameters take as    *)
(* much as they can.                                                           *)
RECURSIVE MatchAt(_, _, _), TryLen(_, _, _, _)
MatchAt(pat, i, t) ==
  IF i > Len(pat) THEN IF t = "" THEN <<<<>>>> ELSE <<>>
  ELSE IF pat[i].k = "l"
       THEN IF StartsWith(t, pat[i].v) THEN MatchAt(pat, i + 1, From(t, Len(pat[i].v) + 1)) ELSE <<>>
       ELSE TryLen(pat, i, t, Len(t))
TryLen(pat, i, t, n) ==
  IF n < 0 THEN <<>>
  ELSE LET r == IF Accepts(pat[i].c, Upto(t, n)) THEN MatchAt(pat, i + 1, From(t, n + 1)) ELSE <<>>
       IN IF r # <<>> THEN <<<<<<pat[i].v, Convert(pat[i].c, Upto(t, n))>>>> \o r[1]>>
          ELSE TryLen(pat, i, t, n - 1)
Match(pat, t) == MatchAt(pat, 1, t)

(* number of readings, capped at 2: is the pattern ambiguous for t? *)
RECURSIVE Count(_, _, _), CountLen(_, _, _, _)
Count(pat, i, t) ==
  IF i > Len(pat) THEN IF t = "" THEN 1 ELSE 0
  ELSE IF pat[i].k = "l" THEN IF StartsWith(t, pat[i].v) THEN Count(pat, i + 1, From(t, Len(pat[i].v) + 1)) ELSE 0
  ELSE CountLen(pat, i, t, Len(t))
CountLen(pat, i, t, n) ==
  IF n < 0 THEN 0
  ELSE LET here == IF Accepts(pat[i].c, Upto(t, n)) THEN Count(pat, i + 1, From(t, n + 1)) ELSE 0
       IN IF here >= 2 THEN 2 ELSE LET m == here + CountLen(pat, i, t, n - 1) IN IF m > 2 THEN 2 ELSE m
Unambiguous(pat, t) == Count(pat, 1, t) = 1

Lit(v)      == [k |-> "l", v |-> v, c |-> ""]
Par(v, c)   == [k |-> "p", v |-> v, c |-> c]

(* parameters: association lists; later bindings of the same name win *)
Merge(old, new) == SelectSeq(old, LAMBDA p : ~Has(new, p[1])) \o new

-----------------------------------------------------------------------------
(* scope: [type, method, path, root, approot, host, params, ep] *)

RoutePath(sc) ==
  IF sc.root = "" \/ ~StartsWith(sc.path, sc.root) THEN sc.path
  ELSE IF sc.path = sc.root THEN ""
  ELSE IF At(sc.path, Len(sc.root) + 1) = "/" THEN From(sc.path, Len(sc.root) + 1)
  ELSE sc.path

MethodOk(r, m) ==
  r.any \/ m \in SeqSet(r.methods) \/ (m = "HEAD" /\ "GET" \in SeqSet(r.methods))
AllowSet(r) == SeqSet(r.methods) \cup (IF "GET" \in SeqSet(r.methods) THEN {"HEAD"} ELSE {})

MountPat(r) == r.pat \o <<Lit("/"), Par("path", "path")>>

(* [m: "none" | "partial" | "full", sc: the scope the child sees] *)
Matches(r, sc) ==
  CASE r.kind = "route" ->
         LET x == IF sc.type = "http" THEN Match(r.pat, RoutePath(sc)) ELSE <<>>
         IN IF x = <<>> THEN [m |-> "none", sc |-> sc]
            ELSE [m |-> IF MethodOk(r, sc.method) THEN "full" ELSE "partial",
                  sc |-> [sc EXCEPT !.params = Merge(@, x[1]), !.ep = r.id]]
    [] r.kind = "ws" ->
         LET x == IF sc.type = "websocket" THEN Match(r.pat, RoutePath(sc)) ELSE <<>>
         IN IF x = <<>> THEN [m |-> "none", sc |-> sc]
            ELSE [m |-> "full", sc |-> [sc EXCEPT !.params = Merge(@, x[1]), !.ep = r.id]]
    [] r.kind = "mount" ->
         LET rp == RoutePath(sc)
             x  == Match(MountPat(r), rp)
         IN IF x = <<>> THEN [m |-> "none", sc |-> sc]
            ELSE LET rest == Last(x[1])[2][2]
                     own  == SubSeq(x[1], 1, Len(x[1]) - 1)
                 IN [m |-> "full",
                     sc |-> [sc EXCEPT !.params = Merge(@, own),
                                       !.root = @ \o Upto(rp, Len(rp) - Len(rest) - 1),
                                       !.approot = IF @ = <<>> THEN <<sc.root>> ELSE @,
                                       !.ep = IF r.leaf # "" THEN r.leaf ELSE "router"]]
    [] r.kind = "host" ->
         LET h == Head(Split(sc.host, ":"))
             x == Match(r.pat, h)
         IN IF x = <<>> THEN [m |-> "none", sc |-> sc]
            ELSE [m |-> "full", sc |-> [sc EXCEPT !.params = Merge(@, x[1]), !.ep = IF r.leaf # "" THEN r.leaf ELSE "router"]]

NoScope == [type |-> "", method |-> "", path |-> "", root |-> "", approot |-> <<>>, host |-> "",
            params |-> <<>>, ep |-> ""]
Outcome(k, id, sc, allow, loc) == [k |-> k, id |-> id, sc |-> sc, allow |-> allow, loc |-> loc]

RECURSIVE RStrip(_)
RStrip(t) == IF EndsWith(t, "/") THEN RStrip(Upto(t, Len(t) - 1)) ELSE t

(* dflt: the application that answers for what no route takes ("": refused) *)
RECURSIVE Dispatch(_, _, _, _)
Dispatch(rs, slash, dflt, sc) ==
  LET full == FirstIdx(rs, LAMBDA r : Matches(r, sc).m = "full")
      part == FirstIdx(rs, LAMBDA r : Matches(r, sc).m = "partial")
      rp   == RoutePath(sc)
      alt  == IF EndsWith(rp, "/") THEN RStrip(sc.path) ELSE sc.path \o "/"
      sc2  == [sc EXCEPT !.path = alt]
      red  == sc.type = "http" /\ slash /\ rp # "/"
              /\ FirstIdx(rs, LAMBDA r : Matches(r, sc2).m # "none") # 0
  IN IF full # 0 THEN
       LET r == rs[full]
           c == Matches(r, sc).sc
       IN IF r.kind \in {"mount", "host"} /\ r.leaf = "" THEN Dispatch(r.routes, r.slash, r.dflt, c)
          ELSE Outcome("app", IF r.kind \in {"mount", "host"} THEN r.leaf ELSE r.id, c, {}, "")
     ELSE IF part # 0 THEN Outcome("405", "", Matches(rs[part], sc).sc, AllowSet(rs[part]), "")
     ELSE IF red THEN Outcome("redirect", "", sc, {}, alt)
     ELSE IF dflt # "" THEN Outcome("app", dflt, [sc EXCEPT !.ep = IF @ = "" THEN "router" ELSE @], {}, "")
     ELSE Outcome(IF sc.type = "websocket" THEN "close" ELSE "404", "", sc, {}, "")

-----------------------------------------------------------------------------
(* reversing: Reverse(route, name, params) is the sequence of alternatives     *)
(* <<>> (no) or <<[path, host, proto]>>.  params: <<name, <<conv, text>>>>,    *)
(* text being the canonical text of a value of the convertor's type.           *)

ToText(v) ==
  CASE v[1] = "float" -> IF EndsWith(v[2], ".0") THEN Upto(v[2], Len(v[2]) - 2) ELSE v[2]
    [] OTHER -> v[2]
(* can the convertor represent this value? *)
Representable(c, v) ==
  CASE c = "str"   -> v[2] # "" /\ "/" \notin Chars(v[2])
    [] c \in {"int", "float"} -> ~StartsWith(v[2], "-") /\ v[2] \notin {"nan", "inf"}
    [] OTHER -> TRUE

PatNames(pat) == {pat[i].v : i \in {j \in 1 .. Len(pat) : pat[j].k = "p"}}
ConvOf(pat, n) == pat[CHOOSE i \in 1 .. Len(pat) : pat[i].k = "p" /\ pat[i].v = n].c

RECURSIVE Fill(_, _)
Fill(pat, ps) ==
  IF pat = <<>> THEN ""
  ELSE (IF Head(pat).k = "l" THEN Head(pat).v
        ELSE IF Has(ps, Head(pat).v) THEN ToText(Get(ps, Head(pat).v, <<"", "">>))
        ELSE "{" \o Head(pat).v \o "}") \o Fill(Tail(pat), ps)
FillOk(pat, ps) == \A n \in PatNames(pat) \cap Keys(ps) : Representable(ConvOf(pat, n), Get(ps, n, <<"", "">>))

Without(ps, names) == SelectSeq(ps, LAMBDA p : p[1] \notin names)

No == [k |-> "no"]
Bad == [k |-> "bad"]       \* a value its convertor cannot represent: an error of some kind
Yes(path, host, proto) == [k |-> "yes", path |-> path, host |-> host, proto |-> proto]

RECURSIVE LStrip(_)
LStrip(t) == IF StartsWith(t, "/") THEN LStrip(From(t, 2)) ELSE t

RECURSIVE Reverse(_, _, _), ReverseIn(_, _, _)
ReverseIn(rs, n, ps) ==
  IF rs = <<>> THEN No
  ELSE LET x == Reverse(Head(rs), n, ps) IN IF x.k # "no" THEN x ELSE ReverseIn(Tail(rs), n, ps)

Reverse(r, n, ps) ==
  CASE r.kind \in {"route", "ws"} ->
         IF r.name # <<n>> \/ Keys(ps) # PatNames(r.pat) THEN No
         ELSE IF ~FillOk(r.pat, ps) THEN Bad
         ELSE Yes(Fill(r.pat, ps), "", IF r.kind = "ws" THEN "websocket" ELSE "http")
    [] r.kind = "mount" ->
         IF r.name = <<n>> /\ Has(ps, "path")
         THEN IF ~FillOk(r.pat, Without(ps, {"path"})) THEN Bad
              ELSE IF Keys(ps) # PatNames(r.pat) \cup {"path"} THEN No
              ELSE Yes(Fill(r.pat, ps) \o "/" \o LStrip(Get(ps, "path", <<"", "">>)[2]), "", "")
         ELSE IF r.name = <<>> \/ StartsWith(n, r.name[1] \o ":")
         THEN LET rest == IF r.name = <<>> THEN n ELSE From(n, Len(r.name[1]) + 2)
                  own  == PatNames(r.pat)
                  x    == IF ~FillOk(r.pat, Without(ps, {"path"})) THEN Bad
                          ELSE IF ~(own \subseteq Keys(ps)) THEN No
                          ELSE ReverseIn(r.routes, rest, Without(ps, own))
              IN IF x.k = "yes" THEN [x EXCEPT !.path = RStrip(Fill(r.pat, ps) \o "/") \o @] ELSE x
         ELSE No
    [] r.kind = "host" ->
         IF r.name = <<n>> /\ Has(ps, "path")
         THEN IF ~FillOk(r.pat, Without(ps, {"path"})) THEN Bad
              ELSE IF Keys(ps) # PatNames(r.pat) \cup {"path"} THEN No
              ELSE Yes(Get(ps, "path", <<"", "">>)[2], Fill(r.pat, ps) \o r.port, "")
         ELSE IF r.name = <<>> \/ StartsWith(n, r.name[1] \o ":")
         THEN LET rest == IF r.name = <<>> THEN n ELSE From(n, Len(r.name[1]) + 2)
                  x    == IF ~FillOk(r.pat, ps) THEN Bad
                          ELSE IF ~(PatNames(r.pat) \subseteq Keys(ps)) THEN No
                          ELSE ReverseIn(r.routes, rest, Without(ps, PatNames(r.pat)))
              IN IF x.k = "yes" THEN [x EXCEPT !.host = Fill(r.pat, ps) \o r.port] ELSE x
         ELSE No

(* the absolute URL a reversed path stands for, given the current request *)
Absolute(y, secure, netloc, root) ==
  LET scheme == CASE y.proto = "http"      -> IF secure THEN "https" ELSE "http"
                  [] y.proto = "websocket" -> IF secure THEN "wss" ELSE "ws"
                  [] OTHER -> ""
  IN [scheme |-> scheme, netloc |-> IF y.host # "" THEN y.host ELSE netloc, path |-> RStrip(root) \o y.path]

-----------------------------------------------------------------------------
(* trace interface; the abstract state is the route table *)
InitState(cfg) == cfg

Scope0(e) == [type |-> e.type, method |-> e.method, path |-> e.path, root |-> e.root, approot |-> <<>>,
              host |-> e.host, params |-> <<>>, ep |-> ""]

SortedParams(ps) == {<<p[1], p[2][1], p[2][2]>> : p \in SeqSet(ps)}
ObsParams(ps) == {<<p[1], p[2], p[3]>> : p \in SeqSet(ps)}

(* an exception handler that answers for the routes sees what the mounts passed, *)
(* and the route whose methods did not fit, account for                          *)
SeenChecks(e, o) ==
  <<<<"refusals-know-what-was-matched",
       /\ Len(e.out.seen) <= 1
       /\ \A i \in 1 .. Len(e.out.seen) :
            LET x == e.out.seen[i] IN
            o.k \in {"404", "405"} => /\ ObsParams(x.params) = SortedParams(o.sc.params) /\ x.path = e.path /\ x.root = o.sc.root
                                     /\ (o.k = "405" => x.ep = o.sc.ep)>>>>

DispatchChecks(s, e, o) ==
  <<<<"answered-by-the-first-matching-route", e.out.k = o.k>>,
    <<"exactly-that-route-ran",
       IF o.k = "app" THEN e.out.ran = <<o.id>> ELSE e.out.ran = <<>>>>,
    <<"parameters-are-those-of-the-pattern",
       o.k = "app" /\ e.out.k = "app" => ObsParams(e.out.params) = SortedParams(o.sc.params)>>,
    <<"allow-lists-the-methods-of-the-route", e.out.k = "405" /\ o.k = "405" => SeqSet(e.out.allow) = o.allow>>,
    <<"redirect-is-to-the-other-slash-form-with-the-query",
       e.out.k = "redirect" /\ o.k = "redirect" =>
         e.out.loc = [path |-> o.loc, query |-> e.query, netloc |-> IF e.host # "" THEN e.host ELSE IF e.scheme = "https" THEN "testserver:80" ELSE "testserver", scheme |-> e.scheme]>>>>
  \o SeenChecks(e, o)

ScopeChecks(s, e, o) ==
  IF o.k # "app" \/ e.out.k # "app" THEN <<<<"reaches-the-same-application", e.out.k = o.k>>>> \o SeenChecks(e, o)
  ELSE <<<<"reaches-the-same-application", e.out.ran = <<o.id>>>>,
         <<"full-path-is-kept", e.out.path = e.path>>,
         <<"root-path-is-every-prefix-once", e.out.root = o.sc.root>>,
         <<"original-root-path-is-kept",
            e.out.approot = IF o.sc.approot = <<>> THEN e.root ELSE o.sc.approot[1]>>,
         <<"parameters-are-the-union-inner-wins", ObsParams(e.out.params) = SortedParams(o.sc.params)>>,
         <<"endpoint-is-the-innermost", e.out.ep = o.sc.ep>>>>

ReverseChecks(s, e) ==
  LET y == ReverseIn(s.routes, e.name, e.params) IN
  <<<<"reverses-iff-the-first-route-of-that-name-takes-the-parameters",
       CASE y.k = "yes" -> e.out.k = "yes"
         [] y.k = "no"  -> e.out.k = "nomatch"
         [] OTHER       -> e.out.k \in {"error", "nomatch"}>>,
    <<"reversed-path", y.k = "yes" /\ e.out.k = "yes" => e.out.path = y.path /\ e.out.host = y.host>>,
    <<"absolute-url", y.k = "yes" /\ e.out.k = "yes" /\ StartsWith(y.path, "/") =>
         LET a == Absolute(y, e.secure, e.netloc, e.root) IN
         e.out.abs = [a EXCEPT !.scheme = IF @ = "" THEN e.scheme ELSE @]>>>>

Checks(s, e) ==
  CASE e.t = "req04" -> DispatchChecks(s, e, Dispatch(s.routes, s.slash, s.dflt, Scope0(e)))
    [] e.t = "req06" -> ScopeChecks(s, e, Dispatch(s.routes, s.slash, s.dflt, Scope0(e)))
    [] e.t = "rev"   -> ReverseChecks(s, e)
Apply(s, e) == s
=============================================================================

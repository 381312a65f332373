-------------------------------- MODULE Reply --------------------------------
(* What a response object tells the server: construction, header operations,   *)
(* and the messages of one or more transmissions.                              *)
EXTENDS HeaderList

(* cfg.kind  "known" (whole body known), "stream", "file"                      *)
(* cfg.hex   the rendered content, two hex digits per byte                      *)
(* cfg.media the media type in force ("None" if none), cfg.charset              *)
(* cfg.hdrs  the application's headers; cfg.url the target of a redirect, as    *)
(*           byte values; cfg.name (and its bytes) the file name or "None"      *)
NoBody(status) == status < 200 \/ status = 204 \/ status = 304
TypeHeader(media, charset) ==
  IF StartsWith(media, "text/") /\ ~Contains(Lower(media), "charset=") THEN media \o "; charset=" \o charset ELSE media

Nat2Str(n) == ToString(n)
BodyLen(cfg) == Len(cfg.hex) \div 2

(* percent-encoding of everything a URL may not contain; a URL is a sequence of byte values *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Chr(n) == At(Ascii, n - 31)
HexDigits == "0123456789ABCDEF"
Pct(n) == "%" \o At(HexDigits, (n \div 16) + 1) \o At(HexDigits, (n % 16) + 1)
UrlSafe == Chars(":/%#?=@[]!$&'()*+,;") \cup Chars(Uppers) \cup Chars(Lowers) \cup Chars(Digits) \cup Chars("_.-~")
NameSafe == Chars("/_.-~") \cup Chars(Uppers) \cup Chars(Lowers) \cup Chars(Digits)
Quote(bytes, safe) == Concat([i \in 1 .. Len(bytes) |->
                  IF bytes[i] \in 32 .. 126 /\ Chr(bytes[i]) \in safe THEN Chr(bytes[i]) ELSE Pct(bytes[i])])

Initial(cfg) ==
  LET own == HMake(cfg.hdrs)
      l1 == IF cfg.kind = "known" /\ ~Has(own, "content-length") /\ ~NoBody(cfg.status)
            THEN Append(own, <<"content-length", Nat2Str(BodyLen(cfg))>>) ELSE own
      l2 == IF cfg.media # "None" /\ ~Has(own, "content-type")
            THEN Append(l1, <<"content-type", TypeHeader(cfg.media, cfg.charset)>>) ELSE l1
  IN IF cfg.redirect THEN HSet(l2, "location", Quote(cfg.url, UrlSafe)) ELSE l2

(* JSON text of a tagged tree: strings come as sequences of characters *)
JsonChar(c) == CASE c = "\"" -> "\\\"" [] c = "\\" -> "\\\\" [] c = "\n" -> "\\n" [] c = "\t" -> "\\t" [] c = "\r" -> "\\r"
                 [] c = "\f" -> "\\f" [] OTHER -> c
RECURSIVE JsonText(_)
JsonText(v) ==
  CASE v.k = "raw" -> v.v
    [] v.k = "str" -> "\"" \o Concat([i \in 1 .. Len(v.v) |-> JsonChar(v.v[i])]) \o "\""
    [] v.k = "list" -> "[" \o Join([i \in 1 .. Len(v.v) |-> JsonText(v.v[i])], ",") \o "]"
    [] v.k = "obj" -> "{" \o Join([i \in 1 .. Len(v.v) |-> JsonText(v.v[i][1]) \o ":" \o JsonText(v.v[i][2])], ",") \o "}"

InitState(cfg) == [cfg |-> cfg, h |-> <<>>, made |-> FALSE, phase |-> "new", got |-> ""]

(* headers whose place relative to the application's own is not promised *)
Auto == {"content-length", "content-type", "location", "accept-ranges", "content-disposition", "last-modified", "etag"}
Rest(l) == SelectSeq(l, LAMBDA p : p[1] \notin Auto)
CookieMatch(got, want) == IF want[1] = "set-cookie" THEN got[1] = "set-cookie" /\ StartsWith(got[2], want[2]) ELSE got = want
SameList(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : CookieMatch(a[i], b[i])
IsLower(t) == t = Lower(t)
WantBody(s) == IF s.cfg.kind = "file" /\ s.cfg.method = "HEAD" THEN "" ELSE s.cfg.hex

Disposition(cfg) == cfg.disp \o (LET q == Quote(cfg.namebytes, NameSafe) IN IF q = cfg.name THEN "; filename=\"" \o cfg.name \o "\"" ELSE "; filename*=utf-8''" \o q)

FileHeaders(s, h) ==
  LET own == HMake(s.cfg.hdrs) IN
  <<<<"file-length", Get(h, "content-length", "") = Get(own, "content-length", Nat2Str(BodyLen(s.cfg)))>>,
    <<"file-accepts-ranges", Get(h, "accept-ranges", "") = Get(own, "accept-ranges", "bytes")>>,
    <<"file-validators", Has(h, "etag") /\ Has(h, "last-modified")>>,
    <<"file-name", IF s.cfg.name = "None" THEN GetAll(h, "content-disposition") = GetAll(own, "content-disposition")
                   ELSE Get(h, "content-disposition", "") = Get(own, "content-disposition", Disposition(s.cfg))>>,
    <<"no-duplicates", \A a \in Auto : Len(GetAll(h, a)) <= 1>>>>

Checks(s, e) ==
  CASE e.t = "new" ->
         <<<<"constructible", e.exc = s.cfg.refused>>,
           <<"rendering", s.cfg.json = <<>> \/ e.exc # "" \/ e.text = JsonText(s.cfg.json[1])>>>>
    [] e.t = "op" -> <<<<"between-transmissions", s.phase \in {"new", "done"}>>>>
    [] e.t = "msg" /\ e.k = "start" ->
         <<<<"start-first-and-once", s.phase \in {"new", "done"}>>,
           <<"type-of-start", e.type = s.cfg.prefix \o "http.response.start">>,
           <<"status", e.status = s.cfg.status>>,
           <<"header-names-lower-case-bytes", e.bytes /\ \A i \in 1 .. Len(e.h) : IsLower(e.h[i][1])>>,
           <<"headers-in-the-order-set", SameList(Rest(e.h), Rest(s.h))>>>>
         \o (IF s.cfg.kind = "file" THEN FileHeaders(s, e.h)
             ELSE <<<<"content-length", GetAll(e.h, "content-length") = GetAll(s.h, "content-length")>>,
                    <<"location", GetAll(e.h, "location") = GetAll(s.h, "location")>>,
                    <<"no-other-automatic-headers",
                      \A a \in Auto : GetAll(e.h, a) = GetAll(s.h, a)>>>>)
         \o <<<<"content-type", GetAll(e.h, "content-type") = GetAll(s.h, "content-type")>>>>
    [] e.t = "msg" ->
         <<<<"body-after-start-and-before-the-end", s.phase = "body">>,
           <<"type-of-body", e.type = s.cfg.prefix \o "http.response.body">>,
           <<"body-is-the-content", IF e.more THEN StartsWith(WantBody(s), s.got \o e.hex) ELSE WantBody(s) = s.got \o e.hex>>>>
    [] e.t = "ret" -> <<<<"returns-after-the-final-message", s.phase = "done">>, <<"no-error", e.exc = "">>>>

Apply(s, e) ==
  CASE e.t = "new" -> [s EXCEPT !.h = Initial(s.cfg), !.made = TRUE]
    [] e.t = "op" -> [s EXCEPT !.h = CASE e.op = "set" -> HSet(@, e.k, e.v)
                                       [] e.op = "del" -> HDel(@, e.k)
                                       [] e.op = "append" -> HAppend(@, e.k, e.v)
                                       [] e.op = "setdefault" -> HSetDefault(@, e.k, e.v)
                                       [] e.op = "update" -> HUpdate(@, e.ps)
                                       [] e.op = "cookie" -> HAppend(@, "set-cookie", e.v)]
    [] e.t = "msg" /\ e.k = "start" -> [s EXCEPT !.phase = "body", !.got = ""]
    [] e.t = "msg" -> [s EXCEPT !.got = @ \o e.hex, !.phase = IF e.more THEN "body" ELSE "done"]
    [] e.t = "ret" -> s
=============================================================================

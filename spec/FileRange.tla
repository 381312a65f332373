------------------------------ MODULE FileRange ------------------------------
(* Range requests on a file: what a Range header asks for, and what an answer  *)
(* says and contains.                                                          *)
EXTENDS Str

Cap == 100000000
RECURSIVE NoZeros(_)
NoZeros(t) == IF Len(t) > 1 /\ At(t, 1) = "0" THEN NoZeros(From(t, 2)) ELSE t
Num(t) == LET z == NoZeros(t) IN IF Len(z) > 8 THEN Cap ELSE ParseNat(z)

(* one element of a range list: <<kind, first, last>> *)
Elem(t0) ==
  LET t == Trim(t0)
      i == Find(t, "-")
      a == Upto(t, i - 1)
      b == From(t, i + 1)
  IN IF i = 0 THEN [k |-> "bad", a |-> 0, b |-> 0]
     ELSE IF IsDigits(a) /\ b = "" THEN [k |-> "from", a |-> Num(a), b |-> 0]
     ELSE IF IsDigits(a) /\ IsDigits(b) THEN [k |-> "both", a |-> Num(a), b |-> Num(b)]
     ELSE IF a = "" /\ IsDigits(b) THEN [k |-> "last", a |-> 0, b |-> Num(b)]
     ELSE [k |-> "bad", a |-> 0, b |-> 0]

Units(h) == LET i == Find(h, "=") IN IF i = 0 THEN "" ELSE Lower(Trim(Upto(h, i - 1)))
Elems(h) == LET q == Split(From(h, Find(h, "=") + 1), ",") IN [i \in 1 .. Len(q) |-> Elem(q[i])]

(* the bytes an element selects of n bytes, as [lo, hi) *)
Lo(x, n) == CASE x.k = "last" -> IF x.b > n THEN 0 ELSE n - x.b [] OTHER -> x.a
Hi(x, n) == CASE x.k = "both" -> IF x.b + 1 > n THEN n ELSE x.b + 1 [] OTHER -> n
Outside(x, n) == Lo(x, n) >= n
Backwards(x) == x.k = "both" /\ x.a > x.b
Bytes(x, n) == Lo(x, n) .. (Hi(x, n) - 1)

(* "400" | "416" | "206" | "either" (400 or 416) | "odd": not in the grammar, any truthful answer *)
Verdict(h, n) ==
  IF Units(h) # "bytes" THEN "400"
  ELSE IF Len(h) > 1000 THEN "odd"
  ELSE LET q == Elems(h)
           bad == \E i \in 1 .. Len(q) : q[i].k = "bad"
       IN IF bad THEN (IF \A c \in Chars(From(h, Find(h, "=") + 1)) : c \notin Chars(Digits) THEN "400" ELSE "odd")
          ELSE LET out == \E i \in 1 .. Len(q) : Outside(q[i], n)
                   back == \E i \in 1 .. Len(q) : Backwards(q[i])
               IN IF out /\ back THEN "either" ELSE IF out THEN "416" ELSE IF back THEN "400" ELSE "206"
Wanted(h, n) == LET q == Elems(h) IN UNION {Bytes(q[i], n) : i \in 1 .. Len(q)}

(* a content-range "bytes a-b/n" *)
Label(t) ==
  LET d == Find(t, "-")
      sl == Find(t, "/")
      a == SubSeq(t, 7, d - 1)
      b == SubSeq(t, d + 1, sl - 1)
      n == From(t, sl + 1)
  IN IF StartsWith(t, "bytes ") /\ d > 7 /\ sl > d + 1 /\ IsDigits(a) /\ IsDigits(b) /\ IsDigits(n)
     THEN [ok |-> TRUE, a |-> ParseNat(a), b |-> ParseNat(b), n |-> ParseNat(n)]
     ELSE [ok |-> FALSE, a |-> 0, b |-> 0, n |-> 0]
Describes(l, data, file) == l.ok /\ l.n = Len(file) /\ l.a <= l.b /\ l.b < l.n /\ data = SubSeq(file, l.a + 1, l.b + 1)

(* a multipart body: parts between delimiter lines, each with header lines, an empty line and data *)
RECURSIVE NoNl(_)
NoNl(t) == IF t # "" /\ At(t, Len(t)) \in {"\n", "\r"} THEN NoNl(Upto(t, Len(t) - 1)) ELSE t
Parts(body, b) == LET q == Split(body, "--" \o b) IN SubSeq(q, 2, Len(q) - 1)
Framed(body, b) == LET q == Split(body, "--" \o b) IN Len(q) >= 2 /\ NoNl(q[1]) = "" /\ NoNl(q[Len(q)]) = "--"
PartHeader(p, name) ==
  LET lines == Split(Upto(p, Find(p, "\n\n")), "\n")
      m == SelectSeq(lines, LAMBDA x : StartsWith(Lower(x), name \o ": "))
  IN IF Len(m) = 1 THEN From(m[1], Len(name) + 3) ELSE ""
PartData(p) == NoNl(From(p, Find(p, "\n\n") + 2))

InitState(cfg) == [file |-> cfg.file, type |-> cfg.type, status |-> cfg.status]

IsMulti(cr) == StartsWith(cr, "multipart/byteranges; boundary=")
Boundary(cr) == From(cr, 32)

TruthfulPart(s, e) ==
  IF IsMulti(e.crange)
  THEN \/ e.head
       \/ /\ Framed(e.body, Boundary(e.crange))
          /\ LET ps == Parts(e.body, Boundary(e.crange))
             IN /\ Len(ps) >= 1
                /\ \A i \in 1 .. Len(ps) : /\ Describes(Label(PartHeader(ps[i], "content-range")), PartData(ps[i]), s.file)
                                           /\ PartHeader(ps[i], "content-type") = s.type
  ELSE LET l == Label(e.crange) IN IF e.head THEN l.ok /\ l.n = Len(s.file) /\ l.a <= l.b /\ l.b < l.n
                                   ELSE Describes(l, e.body, s.file)
Covered(s, e) ==
  IF IsMulti(e.crange)
  THEN LET ps == Parts(e.body, Boundary(e.crange))
       IN UNION {LET l == Label(PartHeader(ps[i], "content-range")) IN l.a .. l.b : i \in 1 .. Len(ps)}
  ELSE LET l == Label(e.crange) IN l.a .. l.b

Whole(s, e) == e.status = s.status /\ e.crange = "None" /\ e.body = (IF e.head THEN "" ELSE s.file) /\ e.length = ToString(Len(s.file))
Partial(s, e) == e.status = 206 /\ TruthfulPart(s, e)

Applies(s, e) == s.status = 200 /\ e.range # "None" /\ e.ifrange \in {"none", "etag", "date"}

Checks(s, e) ==
  CASE e.t = "get" ->
         <<<<"no-error", e.exc = "">>, <<"one-final-message", e.finals>>,
           <<"accepts-ranges", e.status \in {200, 206} => e.accept = "bytes">>>>
         \o (IF ~Applies(s, e) THEN <<<<"whole-file", Whole(s, e)>>>>
             ELSE LET v == Verdict(e.range, Len(s.file))
                  IN CASE v = "400" -> <<<<"malformed-is-400", e.status = 400>>>>
                       [] v = "416" -> <<<<"outside-is-416", e.status = 416 /\ EndsWith(e.crange, "*/" \o ToString(Len(s.file)))>>>>
                       [] v = "either" -> <<<<"malformed-or-outside", e.status \in {400, 416}>>>>
                       [] v = "odd" -> <<<<"truthful-answer", e.status \in {400, 416} \/ Whole(s, e) \/ Partial(s, e)>>>>
                       [] OTHER -> <<<<"partial-content", e.status = 206>>,
                                     <<"range-describes-the-bytes", e.status = 206 => Partial(s, e)>>,
                                     <<"covers-exactly-what-was-asked", e.status = 206 /\ TruthfulPart(s, e) /\ ~(IsMulti(e.crange) /\ e.head)
                                                                        => Covered(s, e) = Wanted(e.range, Len(s.file))>>>>)
    [] e.t = "length" ->
         <<<<"no-body-for-head", e.head => e.sent = 0>>, <<"declared-length", e.head \/ e.declared = e.sent \/ (e.multi /\ e.declared + 1 = e.sent)>>>>
    [] e.t = "short" -> <<<<"multipart-length-one-short", ~e.is>>>>
    [] e.t = "shrunk" ->    \* the file was cut after its size was taken
         <<<<"terminates", e.ended>>>>

    [] e.t = "file" -> <<>>        \* the file has other content from now on

Apply(s, e) == IF e.t = "file" THEN [s EXCEPT !.file = e.file] ELSE s
=============================================================================

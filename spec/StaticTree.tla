------------------------------ MODULE StaticTree ------------------------------
(* Serving files from a directory tree with symbolic links: which file, if     *)
(* any, a request path names, and how it is answered.                          *)
EXTENDS Str

(* cfg.fs: sequence of [p |-> "/d1/a", k |-> "file"|"dir"|"link"|"other", x |-> link target] *)
(* cfg.dirs: the served directories; cfg.follow, cfg.html; cfg.mount: path prefix             *)
InitState(cfg) == cfg

Segs(p) == SelectSeq(Split(p, "/"), LAMBDA x : x # "" /\ x # ".")
Path(segs) == IF segs = <<>> THEN "/" ELSE "/" \o Join(segs, "/")
Parent(segs) == IF segs = <<>> THEN segs ELSE SubSeq(segs, 1, Len(segs) - 1)

(* segments with ".." taken lexically; leading ".." are kept *)
RECURSIVE Lexical(_, _)
Lexical(done, rest) ==
  IF rest = <<>> THEN done
  ELSE IF Head(rest) = ".." /\ done # <<>> /\ Last(done) # ".." THEN Lexical(Parent(done), Tail(rest))
  ELSE Lexical(Append(done, Head(rest)), Tail(rest))

Node(fs, p) == LET m == SelectSeq(fs, LAMBDA n : n.p = p) IN IF m = <<>> THEN [p |-> p, k |-> "none", x |-> ""] ELSE m[1]

(* the real location of a path: every link resolved; <<"LOOP">> if that never ends *)
RECURSIVE Real(_, _, _, _)
Real(fs, done, rest, fuel) ==
  IF fuel = 0 THEN <<"LOOP">>
  ELSE IF rest = <<>> THEN done
  ELSE IF Head(rest) = ".." THEN Real(fs, Parent(done), Tail(rest), fuel)
  ELSE LET here == Append(done, Head(rest))
           n == Node(fs, Path(here))
       IN IF n.k = "link"
          THEN IF StartsWith(n.x, "/") THEN Real(fs, <<>>, Segs(n.x) \o Tail(rest), fuel - 1)
               ELSE Real(fs, done, Segs(n.x) \o Tail(rest), fuel - 1)
          ELSE Real(fs, here, Tail(rest), fuel)
RealPath(fs, segs) == Real(fs, <<>>, segs, 20)

Inside(segs, dir) == Len(segs) >= Len(dir) /\ SubSeq(segs, 1, Len(dir)) = dir

(* every directory on the way to the real location exists *)
Kind(fs, real) ==
  IF real = <<"LOOP">> THEN "none"
  ELSE IF real = <<>> THEN "dir"
  ELSE IF \A i \in 1 .. Len(real) - 1 : Node(fs, Path(SubSeq(real, 1, i))).k = "dir" THEN Node(fs, Path(real)).k ELSE "none"

(* what the served directory dir holds at the relative path rel *)
LookupIn(s, dir, rel) ==
  LET d == Segs(dir)
      lex == Lexical(<<>>, d \o rel)
      real == RealPath(s.fs, d \o rel)
      rd == RealPath(s.fs, d)
  IN IF s.follow
     THEN IF Inside(lex, d) THEN LET r == RealPath(s.fs, lex) IN [k |-> Kind(s.fs, r), p |-> Path(r)] ELSE [k |-> "none", p |-> ""]
     ELSE IF Inside(real, rd) THEN [k |-> Kind(s.fs, real), p |-> Path(real)] ELSE [k |-> "none", p |-> ""]
RECURSIVE LookupFrom(_, _, _)
LookupFrom(s, rel, i) ==
  IF i > Len(s.dirs) THEN [k |-> "none", p |-> ""]
  ELSE LET r == LookupIn(s, s.dirs[i], rel) IN IF r.k # "none" THEN r ELSE LookupFrom(s, rel, i + 1)
Lookup(s, rel) == LookupFrom(s, rel, 1)

(* "not-modified" | "fresh" | "any" *)
Conditional(e) ==
  CASE e.inm = "match" -> "not-modified"
    [] e.inm = "star" -> "any"
    [] e.inm = "other" -> "fresh"
    [] OTHER -> IF e.ims \in {"equal", "later"} THEN "not-modified" ELSE "fresh"

NotFound(s) == LET p == IF s.html THEN Lookup(s, <<"404.html">>) ELSE [k |-> "none", p |-> ""]
               IN IF p.k = "file" THEN [a |-> "page", p |-> p.p] ELSE [a |-> "plain", p |-> ""]

(* what a request is answered with: a = file | redirect | page (the 404 page) | plain (404) | method (405) *)
Answer(s, method, path) ==
  LET rel == Lexical(<<>>, Segs(path))
      r == Lookup(s, rel)
      idx == Lookup(s, Append(rel, "index.html"))
  IN IF method \notin {"GET", "HEAD"} THEN [a |-> "method", p |-> ""]
     ELSE IF r.k = "file" THEN [a |-> "file", p |-> r.p]
     ELSE IF r.k = "dir" /\ s.html /\ idx.k = "file"
          THEN IF EndsWith(s.mount \o path, "/") THEN [a |-> "file", p |-> idx.p] ELSE [a |-> "redirect", p |-> ""]
     ELSE NotFound(s)

(* a path no file can have (NUL, too long): 404, with or without the page. A path that   *)
(* runs into a loop of links in one of the directories: 404, or what the others hold.    *)
Loops(s, path) == \E i \in 1 .. Len(s.dirs) : LET d == Segs(s.dirs[i]) IN
                    RealPath(s.fs, Lexical(<<>>, d \o Lexical(<<>>, Segs(path)))) = <<"LOOP">>

IsFile(s, e, p) == e.status = 200 /\ e.body = (IF e.method = "HEAD" THEN "" ELSE p)
Is304(e) == e.status = 304 /\ e.body = "" /\ ~e.entity /\ e.etag

Checks(s, e) ==
  LET w0 == Answer(s, e.method, e.path)
      loop == Loops(s, e.path) \/ (s.html /\ w0.a \in {"page", "plain"} /\ Loops(s, "404.html"))
      w == IF w0.a = "method" THEN w0
           ELSE IF e.nul \/ (loop /\ (w0.a \in {"page", "plain"} \/ e.status = 404)) THEN [NotFound(s) EXCEPT !.a = "unusable"] ELSE w0 IN
  <<<<"answered", e.exc = "">>>>
  \o (CASE w.a = "method" -> <<<<"method-not-allowed", e.status = 405>>>>
        [] w.a = "plain" -> <<<<"not-found", e.status = 404 /\ ~e.served>>>>
        [] w.a = "page" -> <<<<"not-found-page", e.status = 404 /\ e.body = (IF e.method = "HEAD" THEN "" ELSE w.p)>>>>
        [] w.a = "unusable" -> <<<<"not-found", e.status = 404 /\ (e.served => e.body = w.p)>>>>
        [] w.a = "redirect" -> <<<<"redirect-to-the-slash-form",
                                   e.status \in {301, 302, 303, 307, 308} /\ e.location = s.mount \o e.path \o "/" /\ e.lquery = e.query>>>>
        [] OTHER -> LET c == Conditional(e) IN
                    CASE c = "not-modified" -> <<<<"not-modified", Is304(e)>>>>
                      [] c = "any" -> <<<<"file-or-not-modified", Is304(e) \/ IsFile(s, e, w.p)>>>>
                      [] OTHER -> <<<<"the-right-file", IsFile(s, e, w.p)>>>>)
Apply(s, e) == s
=============================================================================

---------------------------------- MODULE Form ----------------------------------
(* A form body parsed under several cuttings into chunks.                      *)
(* cfg: multipart; whole (a well-formed body) ; parts = the parts encoded in   *)
(* the body, each [file, named, name, fn, ct, heads, size (bytes, for the limit), len, body]; max = limits *)
(* [files, fields, size] (a huge number: none); end = "full" | "gone" (the client left    *)
(* before the end) | "cut" (the body ends too early).                          *)
(* Event parsed: outcome = "ok" | "refused" (400 in an application, the        *)
(* parser's exception outside) | "gone" | "error"; items = what the form has;  *)
(* open = number of temporary files open while the form is in use (or after    *)
(* the failure), files = number of files in the form.  Event closed: open.     *)
EXTENDS Str

FieldsTo(ps, i) == Cardinality({j \in 1 .. i : ~ps[j].file})
FilesTo(ps, i) == Cardinality({j \in 1 .. i : ps[j].file})
Over(limit, n) == n > limit
Offends(c, i) ==
  LET p == c.parts[i] IN
  \/ ~p.named
  \/ p.file /\ Over(c.max.files, FilesTo(c.parts, i))
  \/ ~p.file /\ (Over(c.max.fields, FieldsTo(c.parts, i)) \/ Over(c.max.size, p.size))
Refused(c) == c.multipart /\ \E i \in 1 .. Len(c.parts) : Offends(c, i)
Item(p) == [file |-> p.file, name |-> p.name, fn |-> p.fn, ct |-> p.ct, heads |-> p.heads, size |-> p.len, body |-> p.body]
Items(c) == [i \in 1 .. Len(c.parts) |-> Item(c.parts[i])]

InitState(cfg) == [c |-> cfg, first |-> <<>>]
Checks(s, e) ==
  LET c == s.c IN
  CASE e.t = "parsed" ->
       <<<<"cutting-makes-no-difference", s.first # <<>> /\ c.end # "gone" => s.first[1] = [outcome |-> e.outcome, items |-> e.items]>>,
         <<"same-parts-in-order", c.whole /\ c.end = "full" /\ ~Refused(c) => e.outcome = "ok" /\ e.items = Items(c)>>,
         <<"limits-enforced", c.whole /\ c.end = "full" /\ Refused(c) => e.outcome = "refused">>,
         <<"within-the-limits-accepted", c.whole /\ ~Refused(c) => e.outcome # "refused">>,
         <<"a-client-that-leaves-gets-no-form", c.end = "gone" => e.outcome # "ok">>,
         <<"only-whole-parts", c.whole /\ e.outcome = "ok" => Len(e.items) <= Len(c.parts) /\ e.items = SubSeq(Items(c), 1, Len(e.items))>>,
         <<"only-files-of-the-form-are-open", e.outcome = "ok" => e.open <= e.files>>,
         <<"no-file-open-after-a-failure", e.outcome # "ok" => e.open = 0>>>>
    [] e.t = "closed" -> <<<<"closing-the-form-closes-every-file", e.open = 0>>>>
Apply(s, e) == IF e.t = "parsed" /\ s.first = <<>> THEN [s EXCEPT !.first = <<[outcome |-> e.outcome, items |-> e.items]>>] ELSE s
=============================================================================

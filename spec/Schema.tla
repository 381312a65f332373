---------------------------------- MODULE Schema ----------------------------------
(* API schemas generated from route tables.  An item of a table:                 *)
(* [k, path, methods, docs, shown, items]: k = "func" (a function answering      *)
(* methods; docs = <<<<"", d>>>>), "class" (docs = its methods with their docs),  *)
(* "ws", "mount", "host" (items = what is inside), "opaque" (a mounted           *)
(* application without routes); d = "" if there is no documentation in it.        *)
(* cfg: base (entries <<path, method, doc>> of the schema given), top (other      *)
(* entries of it), tables.  Events: schema(i, paths, top, basepaths): generated   *)
(* for table i, entries sorted, and what the base schema has in it afterwards;    *)
(* ask(i, path, method, doc): which documentation the endpoint answering has.     *)
EXTENDS Str

(* "/a/{id:int}" is shown as "/a/{id}" *)
Plain(t) ==
  The({r.out : r \in {Fold(LAMBDA a, i :
         CASE At(t, i) = "{" -> [in |-> TRUE, skip |-> FALSE, out |-> a.out \o "{"]
           [] At(t, i) = "}" -> [in |-> FALSE, skip |-> FALSE, out |-> a.out \o "}"]
           [] a.in /\ At(t, i) = ":" -> [a EXCEPT !.skip = TRUE]
           [] OTHER -> IF a.skip THEN a ELSE [a EXCEPT !.out = a.out \o At(t, i)],
         [in |-> FALSE, skip |-> FALSE, out |-> ""], Upto1(Len(t)))}})

ClassMethods == <<"get", "post", "put", "patch", "delete", "options">>
(* entries <<path, method, doc>> of one item that is no group *)
Leaf(it, pre) ==
  LET p == pre \o Plain(it.path) IN
  CASE it.k = "func" /\ it.shown -> [i \in 1 .. Len(SelectSeq(it.methods, LAMBDA m : m # "HEAD")) |->
                                        <<p, Lower(SelectSeq(it.methods, LAMBDA m : m # "HEAD")[i]), it.docs[1][2]>>]
    [] it.k = "class" /\ it.shown -> LET q == SelectSeq(it.docs, LAMBDA d : d[1] \in SeqSet(ClassMethods)) IN [i \in 1 .. Len(q) |-> <<p, q[i][1], q[i][2]>>]
    [] OTHER -> <<>>
RECURSIVE Entries(_, _, _)
Entries(items, pre, depth) ==
  FlatSeq([i \in 1 .. Len(items) |->
    CASE items[i].k = "mount" /\ depth > 0 -> Entries(items[i].items, pre \o Plain(items[i].path), depth - 1)
      [] items[i].k = "host" /\ depth > 0 -> Entries(items[i].items, pre, depth - 1)
      [] OTHER -> Leaf(items[i], pre)])
Documented(items) == The({SelectSeq(q, LAMBDA x : x[3] # "") : q \in {Entries(items, "", 8)}})
(* two endpoints of one path and method: either may be told *)
Doc(q, p, m) == {q[i][3] : i \in {j \in 1 .. Len(q) : q[j][1] = p /\ q[j][2] = m}}
Places3(q) == {<<q[i][1], q[i][2]>> : i \in 1 .. Len(q)}
Faithful(got, base, q) ==
  /\ Places3(got) = Places3(base) \cup Places3(q)
  /\ \A i \in 1 .. Len(got) :
       LET d == Doc(q, got[i][1], got[i][2]) IN
       IF d # {} THEN got[i][3] \in d ELSE got[i][3] \in Doc(base, got[i][1], got[i][2])
  /\ Cardinality(Places3(got)) = Len(got)

InitState(cfg) == cfg
Checks(s, e) ==
  CASE e.t = "schema" ->
         <<<<"documents-exactly-the-documented-endpoints", \E q \in {Documented(s.tables[e.i])} : Faithful(e.paths, s.base, q)>>,
           <<"keeps-the-rest-of-the-base", SeqSet(e.top) = SeqSet(s.top)>>,
           <<"base-schema-is-left-alone", SeqSet(e.basepaths) = SeqSet(s.base)>>, <<"media-type", e.ctype \in {"", "application/vnd.oai.openapi"}>>>>
    [] e.t = "ask" -> <<<<"served-where-documented", e.doc \in Doc(Documented(s.tables[e.i]), e.path, e.method)>>>>
    [] OTHER -> <<<<"only-what-was-asked-for", FALSE>>>>
Apply(s, e) == s
=============================================================================

------------------------------- MODULE MultiMap -------------------------------
(* Collections as ordered lists of pairs: multi-dicts (imm, md), query         *)
(* parameters (qp), form data (form) and headers (h, mh).  An object views a   *)
(* cell holding the list; constructors copy unless they are told to share.     *)
EXTENDS HeaderList

InitState(cfg) == [cells |-> <<>>, objs |-> <<>>]

IsHeaders(c) == c \in {"h", "mh"}
L(s, i) == s.cells[s.objs[i].cell]

(* ---- multi-dict semantics: the last value of a key counts *)
MDKeys(l) == {l[i][1] : i \in 1 .. Len(l)}
MDHas(l, k) == k \in MDKeys(l)
MDAll(l, k) == GetAll(l, k)
MDGet(l, k) == Last(MDAll(l, k))
MDDel(l, k) == SelectSeq(l, LAMBDA p : p[1] # k)
MDSetList(l, k, vs) == MDDel(l, k) \o [i \in 1 .. Len(vs) |-> <<k, vs[i]>>]
MDSet(l, k, v) == MDSetList(l, k, <<v>>)
MDUpdate(l, ps) == SelectSeq(l, LAMBDA p : ~MDHas(ps, p[1])) \o ps
(* what a plain mapping makes of pairs: one entry per key, first place, last value *)
RECURSIVE AsDict(_, _)
AsDict(d, ps) ==
  IF ps = <<>> THEN d
  ELSE LET k == ps[1][1]
           i == FirstIdx(d, LAMBDA p : p[1] = k)
       IN AsDict(IF i = 0 THEN Append(d, ps[1]) ELSE [d EXCEPT ![i] = ps[1]], Tail(ps))
DictOf(ps) == AsDict(<<>>, ps)

Count(l, p) == Cardinality({i \in 1 .. Len(l) : l[i] = p})
SamePairs(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : Count(a, a[i]) = Count(b, a[i])

(* ---- query strings, as sequences of byte values *)
HexVal(b) == CASE b \in 48 .. 57 -> b - 48 [] b \in 65 .. 70 -> b - 55 [] b \in 97 .. 102 -> b - 87 [] OTHER -> 99
RECURSIVE Unq(_)
Unq(q) ==
  IF q = <<>> THEN <<>>
  ELSE IF q[1] = 43 THEN <<32>> \o Unq(Tail(q))
  ELSE IF q[1] = 37 /\ Len(q) >= 3 /\ HexVal(q[2]) < 16 /\ HexVal(q[3]) < 16
       THEN <<16 * HexVal(q[2]) + HexVal(q[3])>> \o Unq(SubSeq(q, 4, Len(q)))
  ELSE <<q[1]>> \o Unq(Tail(q))
RECURSIVE SplitB(_, _)
SplitB(q, b) ==
  LET i == FirstIdx(q, LAMBDA x : x = b)
  IN IF i = 0 THEN <<q>> ELSE <<SubSeq(q, 1, i - 1)>> \o SplitB(SubSeq(q, i + 1, Len(q)), b)
Pair(f) == LET i == FirstIdx(f, LAMBDA x : x = 61)
           IN IF i = 0 THEN <<Unq(f), <<>>>> ELSE <<Unq(SubSeq(f, 1, i - 1)), Unq(SubSeq(f, i + 1, Len(f)))>>
ParseQ(q) == LET fs == SelectSeq(SplitB(q, 38), LAMBDA f : f # <<>>) IN [i \in 1 .. Len(fs) |-> Pair(fs[i])]
(* bytes that may stand in a query string *)
QueryBytes == {b \in 33 .. 126 : b \notin {34, 35, 60, 62, 91, 92, 93, 94, 96, 123, 124, 125}}

(* ---- the list a new object starts with *)
Start(s, e) ==
  LET base == CASE e.how = "list" -> e.ps
                [] e.how = "dict" -> DictOf(e.ps)
                [] e.how = "obj" -> L(s, e.from)
                [] e.how = "raw" -> e.ps
                [] e.how = "none" -> <<>>
      extra == DictOf(e.kw)
  IN IF IsHeaders(e.c) THEN IF e.how \in {"raw", "obj"} THEN base ELSE HMake(base) ELSE base \o extra

(* ---- the list after an operation *)
After(s, e) ==
  LET l == L(s, e.i)
      other == CASE e.how = "obj" -> L(s, e.from) [] e.how = "dict" -> DictOf(e.ps) [] OTHER -> e.ps
  IN IF IsHeaders(s.objs[e.i].c)
     THEN CASE e.op = "set" -> HSet(l, e.k, e.v)
            [] e.op = "del" -> HDel(l, e.k)
            [] e.op = "setdefault" -> HSetDefault(l, e.k, e.v)
            [] e.op = "append" -> HAppend(l, e.k, e.v)
            [] e.op \in {"update", "ior"} -> HUpdate(l, other)
            [] e.op = "vary" -> HSet(l, "vary", Join(HAll(l, "vary") \o <<e.v>>, ", "))
            [] OTHER -> l
     ELSE CASE e.op = "set" -> MDSet(l, e.k, e.v)
            [] e.op \in {"del", "pop", "poplist"} -> MDDel(l, e.k)
            [] e.op = "popitem" -> MDDel(l, e.rk)
            [] e.op = "clear" -> <<>>
            [] e.op = "setdefault" -> IF MDHas(l, e.k) THEN l ELSE Append(l, <<e.k, e.v>>)
            [] e.op = "setlist" -> MDSetList(l, e.k, e.vs)
            [] e.op = "append" -> Append(l, <<e.k, e.v>>)
            [] e.op = "update" -> MDUpdate(l, (IF e.how = "dict" THEN DictOf(e.ps) ELSE other) \o DictOf(e.kw))
            [] OTHER -> l

(* what the operation answers: [x |-> exception, r |-> result] *)
Answer(s, e) ==
  LET l == L(s, e.i)
      hd == IsHeaders(s.objs[e.i].c)
      has == IF hd THEN HHas(l, e.k) ELSE MDHas(l, e.k)
      all == IF hd THEN HAll(l, e.k) ELSE MDAll(l, e.k)
      val == IF hd THEN all[1] ELSE Last(all)
  IN CASE e.op = "getitem" -> IF has THEN [x |-> "", r |-> val] ELSE [x |-> "KeyError", r |-> "None"]
       [] e.op = "get" -> [x |-> "", r |-> IF has THEN val ELSE e.v]
       [] e.op = "getlist" -> [x |-> "", r |-> all]
       [] e.op = "in" -> [x |-> "", r |-> has]
       [] e.op = "del" -> IF has \/ hd THEN [x |-> "", r |-> "None"] ELSE [x |-> "KeyError", r |-> "None"]
       [] e.op = "pop" -> [x |-> "", r |-> IF has THEN val ELSE e.v]
       [] e.op = "poplist" -> [x |-> "", r |-> all]
       [] e.op = "setdefault" -> [x |-> "", r |-> IF has THEN val ELSE e.v]
       [] OTHER -> [x |-> "", r |-> "None"]

(* an object observed: o.l all pairs in order, o.n length, o.ks iteration, o.vs values, o.is items, o.raw the underlying list *)
Agrees(c, l, o) ==
  /\ o.l = l
  /\ IF IsHeaders(c)
     THEN /\ o.n = Len(l)
          /\ o.is = l
          /\ o.ks = [i \in 1 .. Len(l) |-> l[i][1]]
          /\ o.vs = [i \in 1 .. Len(l) |-> l[i][2]]
     ELSE /\ o.n = Cardinality(MDKeys(l))
          /\ Len(o.ks) = o.n /\ SeqSet(o.ks) = MDKeys(l)
          /\ o.vs = [i \in 1 .. o.n |-> MDGet(l, o.ks[i])]
          /\ o.is = [i \in 1 .. o.n |-> <<o.ks[i], o.vs[i]>>]
  /\ o.raw = l

Checks(s, e) ==
  LET s2 == [s EXCEPT !.cells = CASE e.t = "new" -> IF e.share > 0 THEN @ ELSE Append(@, Start(s, e))
                                  [] e.t = "op" -> IF e.op = "or" THEN Append(@, HUpdate(L(s, e.i), IF e.how = "obj" THEN L(s, e.from) ELSE DictOf(e.ps)))
                                                   ELSE IF e.exc # "" THEN @ ELSE [@ EXCEPT ![s.objs[e.i].cell] = After(s, e)]
                                  [] OTHER -> @,
                  !.objs = CASE e.t = "new" -> Append(@, [c |-> e.c, cell |-> IF e.share > 0 THEN s.objs[e.share].cell ELSE Len(s.cells) + 1])
                             [] e.t = "op" /\ e.op = "or" -> Append(@, [c |-> "mh", cell |-> Len(s.cells) + 1])
                             [] OTHER -> @]
  IN (CASE e.t = "new" -> <<<<"made", e.exc = "">>>>
        [] e.t = "op" /\ e.op = "popitem" ->
             LET l == L(s, e.i) IN
             IF l = <<>> THEN <<<<"nothing-to-pop", e.exc = "KeyError">>>>
             ELSE <<<<"pops-an-item", e.exc = "" /\ MDHas(l, e.rk) /\ e.r = MDGet(l, e.rk)>>>>
        [] e.t = "op" /\ e.op = "eq" -> <<<<"equal-iff-the-same-pairs", e.exc = "" /\ e.r = SamePairs(L(s, e.i), L(s, e.from))>>>>
        [] e.t = "op" /\ e.op = "forbid" -> <<<<"immutable", e.exc # "">>>>
        [] e.t = "op" /\ e.op = "notamap" -> <<<<"only-mappings-are-merged", e.exc = "TypeError">>>>
        [] e.t = "op" /\ e.op \in {"or", "poke"} -> <<<<"no-failure", e.exc = "">>>>
        [] e.t = "op" -> LET a == Answer(s, e) IN <<<<"answer", e.exc = a.x /\ (e.exc = "" => e.r = a.r)>>>>
        [] e.t = "qparse" -> <<<<"query-string-read-completely", e.exc = "" /\ e.got = ParseQ(e.q)>>>>
        [] e.t = "qenc" -> <<<<"query-string-reads-back", e.exc = "" /\ ParseQ(e.q) = e.ps>>, <<"query-string-characters", SeqSet(e.q) \subseteq QueryBytes>>>>)
     \o (IF e.t \in {"qparse", "qenc"} \/ e.exc = "unexpected" THEN <<>>
         ELSE <<<<"every-object-observed", Len(e.obs) = Len(s2.objs)>>,
                <<"objects-agree-with-their-pairs", Len(e.obs) = Len(s2.objs) =>
                    \A j \in 1 .. Len(e.obs) : Agrees(s2.objs[j].c, s2.cells[s2.objs[j].cell], e.obs[j])>>>>)

Apply(s, e) ==
  CASE e.t = "new" -> [cells |-> IF e.share > 0 THEN s.cells ELSE Append(s.cells, Start(s, e)),
                       objs |-> Append(s.objs, [c |-> e.c, cell |-> IF e.share > 0 THEN s.objs[e.share].cell ELSE Len(s.cells) + 1])]
    [] e.t = "op" /\ e.op = "or" ->
         [cells |-> Append(s.cells, HUpdate(L(s, e.i), IF e.how = "obj" THEN L(s, e.from) ELSE DictOf(e.ps))),
          objs |-> Append(s.objs, [c |-> "mh", cell |-> Len(s.cells) + 1])]
    [] e.t = "op" -> IF e.exc # "" THEN s ELSE [s EXCEPT !.cells[s.objs[e.i].cell] = After(s, e)]
    [] OTHER -> s
=============================================================================

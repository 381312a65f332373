------------------------------ MODULE MC_MultiMap ------------------------------
(* All short histories on one collection, next to a second representation (an  *)
(* index from key to value kept up to date step by step) that must agree.      *)
EXTENDS MultiMap, Json
CONSTANTS Depth, Export
VARIABLES cls, l, idx, hist, init
vars == <<cls, l, idx, hist, init>>
Ks == IF cls = "mh" THEN {"a", "A", "b"} ELSE {"a", "b"}
Vs == {"1", "2"}
Upd == {<<>>, <<<<"a", "3">>>>, <<<<"b", "3">>, <<"a", "4">>>>, <<<<"a", "3">>, <<"b", "4">>, <<"a", "5">>>>}
Starts == {<<>>, <<<<"a", "1">>, <<"b", "2">>, <<"a", "2">>>>}
Op(op, k, v, vs, ps, how) == [t |-> "op", i |-> 1, op |-> op, k |-> k, v |-> v, vs |-> vs, ps |-> ps, kw |-> <<>>, how |-> how, from |-> 0, rk |-> k, exc |-> ""]
MdOps == {Op(o, k, v, <<>>, <<>>, "") : o \in {"set", "setdefault", "append"}, k \in {"a", "b"}, v \in Vs}
         \cup {Op(o, k, "9", <<>>, <<>>, "") : o \in {"pop", "del", "poplist"}, k \in {"a", "b"}} \cup {Op("clear", "a", "9", <<>>, <<>>, "")}
         \cup {Op("setlist", k, "9", vs, <<>>, "") : k \in {"a", "b"}, vs \in {<<>>, <<"1">>, <<"2", "1">>}}
         \cup {Op("update", "a", "9", <<>>, ps, how) : ps \in Upd, how \in {"list", "dict"}}
MhOps == {Op(o, k, v, <<>>, <<>>, "") : o \in {"set", "setdefault", "append"}, k \in {"a", "A", "b"}, v \in Vs}
         \cup {Op("del", k, "9", <<>>, <<>>, "") : k \in {"a", "A", "b"}}
         \cup {Op(o, "a", "9", <<>>, ps, "dict") : o \in {"update", "ior"}, ps \in Upd} \cup {Op("vary", "vary", v, <<>>, <<>>, "") : v \in Vs}
S == [cells |-> <<l>>, objs |-> <<[c |-> cls, cell |-> 1]>>]
Idx(c, q) == [k \in {q[i][1] : i \in 1 .. Len(q)} |-> IF c = "mh" THEN HAll(q, k)[1] ELSE MDGet(q, k)]
Init == /\ cls \in {"md", "mh"} /\ init \in Starts /\ l = init /\ hist = <<>>
        /\ idx = Idx(cls, init)
NewIdx(e) ==
  LET put(k, v) == [x \in DOMAIN idx \cup {k} |-> IF x = k THEN v ELSE idx[x]]
      drop(k) == [x \in DOMAIN idx \ {k} |-> idx[x]]
      k == IF cls = "mh" THEN Lower(e.k) ELSE e.k
      d == IF e.how = "dict" THEN DictOf(e.ps) ELSE e.ps
  IN CASE e.op = "set" -> put(k, e.v)
       [] e.op = "append" -> IF cls = "mh" /\ k \in DOMAIN idx THEN idx ELSE put(k, e.v)
       [] e.op = "setdefault" -> IF k \in DOMAIN idx THEN idx ELSE put(k, e.v)
       [] e.op \in {"del", "pop", "poplist"} -> drop(k)
       [] e.op = "clear" -> [x \in {} |-> x]
       [] e.op = "setlist" -> IF e.vs = <<>> THEN drop(k) ELSE put(k, Last(e.vs))
       [] e.op \in {"update", "ior"} -> [x \in DOMAIN idx \cup MDKeys(d) |-> IF x \in MDKeys(d) THEN MDGet(d, x) ELSE idx[x]]
       [] e.op = "vary" -> put("vary", IF "vary" \in DOMAIN idx THEN idx["vary"] \o ", " \o e.v ELSE e.v)
Next == /\ Len(hist) < Depth
        /\ \E e \in (IF cls = "mh" THEN MhOps ELSE MdOps) :
             /\ l' = After(S, e) /\ idx' = NewIdx(e) /\ hist' = Append(hist, e)
             /\ (Export /\ Len(hist') = Depth => PrintT("GEN " \o ToJson([c |-> cls, init |-> init, ops |-> hist'])))
        /\ UNCHANGED <<cls, init>>
Agree == idx = Idx(cls, l)
(* assignment leaves exactly one entry; deletion none; nothing else is touched *)
Others(q, k) == SelectSeq(q, LAMBDA p : p[1] # k)
OneEntry == hist # <<>> => LET e == Last(hist) IN
             /\ e.op = "set" => Cardinality({i \in 1 .. Len(l) : l[i][1] = Lower(e.k)}) = 1
             /\ e.op \in {"del", "pop"} => ~\E i \in 1 .. Len(l) : l[i][1] = Lower(e.k)
LowerNames == cls = "mh" => \A i \in 1 .. Len(l) : l[i][1] = Lower(l[i][1])
(* query strings *)
Alpha == {97, 38, 61, 43, 37, 52, 49}
Seqs(n) == UNION {[1 .. m -> Alpha] : m \in 0 .. n}
(* a byte escaped is the byte, wherever it stands *)
ASSUME \A b \in 0 .. 255 : Unq(<<37, (IF b \div 16 < 10 THEN 48 ELSE 55) + b \div 16, (IF (b % 16) < 10 THEN 48 ELSE 87) + (b % 16), 97>>) = <<b, 97>>
(* no byte of a segment is lost: parsing segments apart is parsing them together *)
ASSUME \A p \in Seqs(3), q \in Seqs(2) : ParseQ(p \o <<38>> \o q) = ParseQ(p) \o ParseQ(q)
=============================================================================

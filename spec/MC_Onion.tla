-------------------------------- MODULE MC_Onion --------------------------------
(* Every small tree of layers, every path through it and every outcome; and    *)
(* short histories of adding and serving.                                      *)
EXTENDS Onion, Json
CONSTANTS Depth, Export
VARIABLES s, init, hist, ran, e0
vars == <<s, init, hist, ran, e0>>
Mi(i, b) == [id |-> i, arg |-> "", base |-> b]
Node(k, name, id, mids, kids, ep) == [k |-> k, name |-> name, id |-> id, mids |-> mids, kids |-> kids, ep |-> ep]
R(name, id, mids, ep) == Node("route", name, id, mids, <<>>, ep)
Lists(a, b) == {<<>>, <<Mi(a, FALSE)>>, <<Mi(a, FALSE), Mi(b, FALSE)>>}
OrNot(a) == {<<>>, <<Mi(a, FALSE)>>}
Inners == {Node("router", "", "q", m, <<R("x", "r1", n, ep), R("y", "r2", <<Mi("s2", FALSE)>>, "class")>>, "") : m \in OrNot("q1"), n \in OrNot("s1"), ep \in {"func", "class"}}
          \cup {Node("app", "", "in", m, <<R("x", "r1", n, "func"), R("y", "r2", <<>>, "class")>>, "") : m \in Lists("i1", "i2"), n \in OrNot("s1")}
Trees == {Node("app", "", "out", a, <<Node("mount", "m", "mt", m, <<k>>, ""), R("z", "r3", <<Mi("s3", FALSE)>>, "func")>>, "") : a \in Lists("a1", "a2"), m \in OrNot("m1"), k \in Inners}
Paths == {<<"m", "x">>, <<"m", "y">>, <<"z">>, <<"m", "no">>, <<"no">>}
AllMids == {"a1", "a2", "m1", "q1", "s1", "s2", "s3", "i1", "i2", "n1"}
Ocs == [k : {"ok", "http", "boom", "late"}, at : {""}, st : {200}] \cup [k : {"stop", "before", "after", "swallow"}, at : {"a1", "m1", "q1", "s1", "i1"}, st : {200}]
Req == [t : {"request"}, typ : {"http"}, path : Paths, oc : Ocs] \cup {[t |-> "request", typ |-> "lifespan", path |-> <<>>, oc |-> [k |-> "ok", at |-> "", st |-> 200]]}
Adds == {[t |-> "add", app |-> a, mid |-> Mi("n1", FALSE), exc |-> x] : a \in {"out", "in"}, x \in {"", "RuntimeError"}}
Holds(e) == \A i \in 1 .. Len(Checks(s, e)) : Checks(s, e)[i][2]
Init == init \in Trees /\ s = InitState([tree |-> init]) /\ hist = <<>> /\ ran = <<>> /\ e0 = <<>>
IsApp(n, a) == n.id = a \/ (\E i \in 1 .. Len(n.kids) : \E j \in 1 .. Len(n.kids[i].kids) : n.kids[i].kids[j].id = a)
Step == /\ ~s.busy /\ Len(hist) < Depth
        /\ \E e \in (IF Len(SelectSeq(hist, LAMBDA h : h.t = "add")) < 1 THEN Adds ELSE {}) \cup (IF hist = <<>> \/ hist[1].t = "add" THEN Req ELSE {}) :
             /\ (e.t = "add" => IsApp(s.tree, e.app)) /\ Holds(e) /\ s' = Apply(s, e) /\ hist' = Append(hist, e)
             /\ (e.t = "request" => e0' = <<Planned(s, e), IF e.typ = "lifespan" THEN LifeChain(s.tree) ELSE Chain(s.tree, e.path, e.typ)>>)
             /\ (e.t = "add" => e0' = e0 /\ (Export /\ Len(hist) = 1 => PrintT("GEN " \o ToJson([tree |-> init, ops |-> hist']))))
        /\ ran' = <<>> /\ UNCHANGED init
Finish == s.busy /\ LET e == [t |-> "done", exc |-> s.exc] IN s' = Apply([s EXCEPT !.todo = <<>>], e) /\ ran' = s.todo
          /\ (Export /\ Len(hist) = Depth => PrintT("GEN " \o ToJson([tree |-> init, ops |-> hist])))
          /\ UNCHANGED <<init, hist, e0>>
Next == Step \/ Finish
(* the events of a request are brackets, in the order of the chain, each layer at most once *)
Ms == LET m == SelectSeq(e0[2], LAMBDA y : y.k = "M") IN [i \in 1 .. Len(m) |-> m[i].id]
Of(t) == LET q == SelectSeq(ran, LAMBDA v : v.t \in t) IN [i \in 1 .. Len(q) |-> q[i].id]
Rev(q) == [i \in 1 .. Len(q) |-> q[Len(q) + 1 - i]]
IsPrefix2(a, b) == Len(a) <= Len(b) /\ \A i \in 1 .. Len(a) : a[i] = b[i]
DeclaredOrder == ran # <<>> => IsPrefix2(Of({"enter"}), Ms)
UnwindsInReverse == ran # <<>> => Of({"return", "raise"}) = Rev(Of({"enter"}))
(* one response at most passes each layer, in unwinding order, and then every layer further out *)
Sub2(a, b) == SelectSeq(b, LAMBDA x : x \in SeqSet(a)) = a
ResponsePasses == ran # <<>> => /\ Sub2(Of({"start"}), Rev(Ms))
                                /\ \A i \in 1 .. Len(Ms) : Ms[i] \in SeqSet(Of({"start"})) => \A j \in 1 .. i - 1 : Ms[j] \in SeqSet(Of({"start"}))
EndpointOnce == Len(Of({"endpoint"})) <= 1
AllRunUnlessStopped == ran # <<>> /\ Last(hist).t = "request" /\ (Last(hist).oc.at = "" \/ Last(hist).oc.k \in {"after", "swallow"}) => Of({"enter"}) = Ms
AddedOutermost == ran # <<>> /\ Len(hist) > 1 /\ hist[1].t = "add" /\ hist[1].app = "out" /\ hist[1].exc = "" => Of({"enter"})[1] = "n1"
=============================================================================

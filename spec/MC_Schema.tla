-------------------------------- MODULE MC_Schema --------------------------------
(* The generator as a machine with a stack: walks the tables item by item.       *)
EXTENDS Schema, Json
CONSTANTS MaxItems, Export
VARIABLES tab, todo, out, ph
vars == <<tab, todo, out, ph>>
F(p, ms, d, sh) == [k |-> "func", path |-> p, methods |-> ms, docs |-> <<<<"", d>>>>, shown |-> sh, items |-> <<>>]
C(p, ds) == [k |-> "class", path |-> p, methods |-> <<>>, docs |-> ds, shown |-> TRUE, items |-> <<>>]
G(k, p, its) == [k |-> k, path |-> p, methods |-> <<>>, docs |-> <<>>, shown |-> TRUE, items |-> its]
Leaves == {F("/a", <<"GET", "HEAD">>, "d1", TRUE), F("/a", <<"POST">>, "d2", TRUE), F("/b/{x:int}", <<"GET", "HEAD", "DELETE">>, "d3", TRUE), F("/a", <<"GET", "HEAD">>, "", TRUE),
           F("/h", <<"GET", "HEAD">>, "d4", FALSE), C("/a", <<<<"get", "d5">>, <<"head", "d6">>, <<"put", "">>, <<"options", "d7">>>>), G("ws", "/w", <<>>), G("opaque", "/o", <<>>)}
Small == {<<>>} \cup {<<x>> : x \in Leaves} \cup {<<x, y>> : x \in Leaves, y \in Leaves}
Groups == {G("mount", p, its) : p \in {"", "/m", "/{v:path}"}, its \in {q \in Small : Len(q) < 2}} \cup {G("host", "h", its) : its \in {q \in Small : Len(q) = 2}}
Nested == {<<G("mount", "/n", <<g, x>>)>> : g \in {g \in Groups : Len(g.items) = 1}, x \in Leaves}
Tables == Small \cup {<<x, g>> : x \in Leaves, g \in Groups} \cup {<<g, x>> : x \in Leaves, g \in Groups} \cup Nested
Init == /\ tab \in Tables /\ todo = <<[items |-> tab, pre |-> ""]>> /\ out = <<>> /\ ph = "walk"
        /\ (Export => PrintT("GEN " \o ToJson(tab)))
Head1 == todo[1].items[1]
Rest == IF Len(todo[1].items) = 1 THEN Tail(todo) ELSE <<[todo[1] EXCEPT !.items = Tail(@)]>> \o Tail(todo)
Pop == ph = "walk" /\ todo # <<>> /\ todo[1].items = <<>> /\ todo' = Tail(todo) /\ UNCHANGED <<tab, out, ph>>
Walk == /\ ph = "walk" /\ todo # <<>> /\ todo[1].items # <<>> /\ ~Export
        /\ IF Head1.k \in {"mount", "host"}
           THEN /\ todo' = <<[items |-> Head1.items, pre |-> IF Head1.k = "mount" THEN todo[1].pre \o Plain(Head1.path) ELSE todo[1].pre]>> \o Rest
                /\ UNCHANGED out
           ELSE /\ todo' = Rest
                /\ LET new == SelectSeq(Leaf(Head1, todo[1].pre), LAMBDA x : x[3] # "") IN
                   out' = SelectSeq(out, LAMBDA o : \A j \in 1 .. Len(new) : <<new[j][1], new[j][2]>> # <<o[1], o[2]>>) \o new
        /\ UNCHANGED <<tab, ph>>
Finish == ph = "walk" /\ todo = <<>> /\ ph' = "end" /\ UNCHANGED <<tab, todo, out>>
Next == Pop \/ Walk \/ Finish
Agrees == ph = "end" => Faithful(out, <<>>, Documented(tab))
NoHead == \A i \in 1 .. Len(out) : out[i][2] # "head" /\ out[i][3] # "d4"
NoConvertors == \A i \in 1 .. Len(out) : ~Contains(out[i][1], ":")
=============================================================================

------------------------------ MODULE MC_Routing ------------------------------
(* Theorems about the routing specification, checked by TLC on a bounded       *)
(* universe: every pattern of at most three tokens, values of every convertor, *)
(* and two-level route tables with all short request paths.                    *)
EXTENDS Routing

VARIABLES kind, pat, ps, tab, path, root
vars == <<kind, pat, ps, tab, path, root>>

Lits == {"/", "/a", "-", "."}
Pars == {Par("s", "str"), Par("n", "int"), Par("p", "path"), Par("f", "float")}
Toks == {Lit(v) : v \in Lits} \cup Pars
Pats == {<<Lit("/")>> \o q : q \in UNION {[1 .. n -> Toks] : n \in 0 .. 3}}
GoodPat(q) == \A i, j \in 1 .. Len(q) : (i # j /\ q[i].k = "p" /\ q[j].k = "p") => q[i].v # q[j].v

Vals(c) == CASE c = "str"   -> {<<"str", "x">>, <<"str", "1">>, <<"str", "a-b">>, <<"str", "x.y">>}
             [] c = "int"   -> {<<"int", "0">>, <<"int", "12">>}
             [] c = "float" -> {<<"float", "1.0">>, <<"float", "2.5">>}
             [] c = "path"  -> {<<"str", "">>, <<"str", "a/b">>, <<"str", "x">>}

RECURSIVE Assign(_)
Assign(q) == IF q = <<>> THEN {<<>>}
             ELSE IF Head(q).k = "l" THEN Assign(Tail(q))
             ELSE {<<<<Head(q).v, v>>>> \o a : v \in Vals(Head(q).c), a \in Assign(Tail(q))}

R(id, q, ms) == [kind |-> "route", pat |-> q, any |-> FALSE, methods |-> ms, id |-> id, name |-> <<id>>]
M(q, rs, sl) == [kind |-> "mount", pat |-> q, name |-> <<>>, leaf |-> "", routes |-> rs, slash |-> sl, dflt |-> "", id |-> "m"]
Leaf(q, id)  == [kind |-> "mount", pat |-> q, name |-> <<>>, leaf |-> id, routes |-> <<>>, slash |-> TRUE, dflt |-> "", id |-> id]

Inner == { <<R("i1", <<Lit("/")>>, <<"GET">>)>>, <<R("i2", <<Lit("/b")>>, <<"POST">>)>>,
           <<R("i3", <<Lit("/"), Par("s", "str")>>, <<"GET">>), Leaf(<<Lit("/a")>>, "deep")>> }
Outer == {R("o1", <<Lit("/a")>>, <<"GET">>), R("o2", <<Lit("/a/")>>, <<"POST">>),
          R("o3", <<Lit("/"), Par("p", "path")>>, <<"GET">>), Leaf(<<Lit("/a")>>, "leaf")}
         \cup {M(<<Lit("/a")>>, rs, sl) : rs \in Inner, sl \in BOOLEAN}
         \cup {M(<<Lit("/"), Par("s", "str")>>, rs, TRUE) : rs \in Inner}
         \cup {M(<<>>, rs, TRUE) : rs \in Inner}
Tables == {<<x>> : x \in Outer} \cup {<<x, y>> : x, y \in Outer}
Segs == {"", "a", "b"}
Paths == {"/"} \cup {"/" \o x : x \in {"a", "b"}} \cup {"/" \o x \o "/" \o y : x \in {"a", "b"}, y \in Segs}
         \cup {"/a/" \o x \o "/" \o y : x \in {"a", "b"}, y \in Segs}

Init == \/ /\ kind = "reverse"
           /\ pat \in {q \in Pats : GoodPat(q)} /\ ps \in Assign(pat)
           /\ tab = <<>> /\ path = "" /\ root = ""
        \/ /\ kind = "dispatch"
           /\ tab \in Tables /\ path \in Paths /\ root \in {"", "/r"}
           /\ pat = <<>> /\ ps = <<>>
Next == UNCHANGED vars

(* a filled pattern matches itself, and gives the values back unless ambiguous *)
RoundTrip ==
  kind = "reverse" =>
    LET t == Fill(pat, ps) x == Match(pat, t) IN
    /\ x # <<>>
    /\ Unambiguous(pat, t) => SeqSet(x[1]) = {<<p[1], p[2]>> : p \in SeqSet(ps)}

(* mounts account for the path exactly once: what the application sees as its   *)
(* root plus what is left is the whole path, and the root extends the original  *)
Sc == [type |-> "http", method |-> "GET", path |-> root \o path, root |-> root, approot |-> <<>>, host |-> "h",
       params |-> <<>>, ep |-> ""]
Accounting ==
  kind = "dispatch" =>
    LET o == Dispatch(tab, TRUE, "", Sc) IN
    o.k = "app" => /\ o.sc.path = Sc.path
                   /\ StartsWith(o.sc.root, root)
                   /\ o.sc.root \o RoutePath(o.sc) = Sc.path
                   /\ o.sc.approot \in {<<>>, <<root>>}
(* a redirect leads somewhere: following it is not answered by another redirect *)
NoLoop ==
  kind = "dispatch" =>
    LET o == Dispatch(tab, TRUE, "", Sc) IN
    o.k = "redirect" => LET o2 == Dispatch(tab, TRUE, "", [Sc EXCEPT !.path = o.loc]) IN
                        o2.k # "redirect" \/ o2.loc # Sc.path
(* dispatch depends on the method only through what routes declare *)
MethodBlind ==
  kind = "dispatch" =>
    LET o == Dispatch(tab, TRUE, "", Sc) p == Dispatch(tab, TRUE, "", [Sc EXCEPT !.method = "HEAD"]) IN
    (o.k = "app") = (p.k = "app")
(* an application for the rest answers what would be refused, and nothing else *)
DefaultIsLast ==
  kind = "dispatch" =>
    LET o == Dispatch(tab, TRUE, "", Sc) d == Dispatch(tab, TRUE, "d", Sc) IN
    IF d.id = "d" THEN o.k \in {"404", "close"} ELSE d = o
=============================================================================

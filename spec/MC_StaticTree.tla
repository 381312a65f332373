---------------------------- MODULE MC_StaticTree ----------------------------
(* All subsets of a menu of files, directories and links (inside, outside,     *)
(* looping, to sibling directories), with every option and request path.       *)
EXTENDS StaticTree, Json
CONSTANTS Export
VARIABLES s, path
vars == <<s, path>>
N(p, k, x) == [p |-> p, k |-> k, x |-> x]
Base == <<N("/d1", "dir", ""), N("/d1x", "dir", ""), N("/d1x/secret", "file", ""), N("/out", "dir", ""), N("/out/f", "file", ""),
          N("/out/index.html", "file", ""), N("/pk", "dir", ""), N("/pk/statics", "dir", "")>>
Menu == <<N("/d1/a", "file", ""), N("/d1/dir", "dir", ""), N("/d1/dir/index.html", "file", ""), N("/d1/lo", "link", "../out"),
          N("/d1/lf", "link", "/out/f"), N("/d1/li", "link", "a"), N("/d1/404.html", "file", ""), N("/pk/statics/a", "file", ""),
          N("/pk/statics/dir", "file", ""), N("/d1/loop", "link", "loop")>>
Paths == {"/", "/a", "/dir", "/dir/", "/dir/index.html", "/lo/f", "/lo", "/lo/", "/lf", "/li", "/nope", "/../out/f", "/../d1x/secret", "/../d1/a",
          "/dir/../a", "/loop", "/a/x", "/./a", "//a", "/dir/../../d1/a"}
Pick(S) == SelectSeq(Menu, LAMBDA n : n.p \in S)
Closed(q) == \A i \in 1 .. Len(q) : q[i].p = "/d1/dir/index.html" => \E j \in 1 .. Len(q) : q[j].p = "/d1/dir"
Init == \E S \in SUBSET {Menu[i].p : i \in 1 .. Len(Menu)}, f, h \in BOOLEAN, two \in BOOLEAN :
          /\ Closed(Pick(S))
          /\ s = [fs |-> Base \o Pick(S), dirs |-> IF two THEN <<"/d1", "/pk/statics">> ELSE <<"/d1">>, follow |-> f, html |-> h, mount |-> "/m"]
          /\ path = ""
          /\ (Export => PrintT("GEN " \o ToJson(s)))
Next == path = "" /\ path' \in Paths /\ UNCHANGED s
Stay == UNCHANGED vars
A == Answer(s, "GET", path)
Within(p, d) == StartsWith(p, d \o "/")
Served == path # "" /\ A.a \in {"file", "page"}
NothingOutside == (Served /\ ~s.follow) => \E i \in 1 .. Len(s.dirs) : Within(A.p, s.dirs[i])
OnlyThroughLinks == (Served /\ s.follow) => (\E i \in 1 .. Len(s.dirs) : Within(A.p, s.dirs[i])) \/ (\E i \in 1 .. Len(s.fs) : s.fs[i].k = "link")
OnlyFiles == Served => Node(s.fs, A.p).k = "file"
NeverTheSibling == Served => A.p # "/d1x/secret"
=============================================================================

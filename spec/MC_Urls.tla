-------------------------------- MODULE MC_Urls --------------------------------
(* All URLs over small sets of components, and all edits of them: what is built  *)
(* parses back to its components, an edit changes what it names and nothing else, *)
(* edits of different components commute, and putting a parameter in and taking   *)
(* it out again is putting nothing in.                                            *)
EXTENDS Urls, Json
CONSTANTS Schemes, Users, Passes, Hosts, Ports, Paths, Queries, Fragments, Steps, Export
VARIABLES c, n, last, edits
vars == <<c, n, last, edits>>
None == "None"
Cs == {x \in [scheme : Schemes, user : Users, pass : Passes, host : Hosts, port : Ports, path : Paths, query : Queries, fragment : Fragments] :
        /\ (x.user = None => x.pass = None) /\ (x.host = "" => x.user = None /\ x.port = None) /\ (x.host # "" /\ x.path # "" => StartsWith(x.path, "/"))}
Init == c \in Cs /\ n = 0 /\ last = <<c, <<>>>> /\ edits = <<>>
Values(k) == CASE k = "scheme" -> Schemes \ {""} [] k = "username" -> Users [] k = "password" -> Passes [] k = "hostname" -> (Hosts \cup {"::2"}) \ {""} [] k = "port" -> Ports
               [] k = "path" -> {p \in Paths : p = "" \/ StartsWith(p, "/")} [] k = "query" -> Queries [] k = "fragment" -> Fragments
Fields == {"scheme", "username", "password", "hostname", "port", "path", "query", "fragment"}
Sane(d, args) == Replace(d, args).user = None => Replace(d, args).pass = None
Edit == /\ n < Steps /\ \E k \in Fields : \E v \in Values(k) :
             /\ Sane(c, << <<k, v>> >>) /\ (c.host = "" => k \notin {"username", "password", "port"})
             /\ c' = Replace(c, << <<k, v>> >>) /\ last' = <<c, <<k, v>>>>
             /\ edits' = IF Export THEN Append(edits, <<k, v>>) ELSE edits
        /\ n' = n + 1
        /\ (Export /\ n' = Steps) => PrintT("GEN " \o ToJson([url |-> Build(last[1]), edits |-> edits']))
Next == Edit
Spec == Init /\ [][Next]_vars
View == <<c, n, last>>
RoundTrip == Tidy(ParseUrl(Build(c))) = Tidy(c)
Touches(k) == CASE k = "username" -> {"user", "pass"} [] k = "password" -> {"pass"} [] k = "hostname" -> {"host"} [] OTHER -> {k}
OnlyNamed == n > 0 => \A f \in DOMAIN c : f \notin Touches(last[2][1]) => c[f] = last[1][f]
Commute == \A j \in {"scheme", "path", "fragment"}, k \in {"hostname", "query"} : \A v \in Values(j), w \in Values(k) :
             Replace(Replace(c, << <<j, v>> >>), << <<k, w>> >>) = Replace(Replace(c, << <<k, w>> >>), << <<j, v>> >>)
InOut == LET ps == Pairs(c.query) IN Edited("remove", Edited("include", ps, << <<"zz", "1">> >>), << <<"zz", "">> >>) = ps
=============================================================================

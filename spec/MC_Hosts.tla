-------------------------------- MODULE MC_Hosts --------------------------------
(* Host headers put together from pieces, against small allow-lists.           *)
EXTENDS Hosts, Json
CONSTANTS Depth, Export
VARIABLES cf, hs, n, wrote
vars == <<cf, hs, n, wrote>>
Pieces == {"a.t", "www.", "x", ".", "t", ":", "80", "8", "@", "/", "[", "]", "::1", "#"}
Cfgs == [kind : {"trusted"}, allowed : {<<"a.t">>, <<"*.a.t">>, <<"www.a.t", "*.t">>, <<"[::1]", "www.x">>, <<"*">>, <<>>}, www : BOOLEAN]
        \cup {[kind |-> "https", allowed |-> <<>>, www |-> TRUE]}
Init == cf \in Cfgs /\ hs = "" /\ n = 0 /\ wrote = FALSE
Put == n < Depth /\ ~wrote /\ \E p \in Pieces : hs' = hs \o p /\ n' = n + 1 /\ UNCHANGED <<cf, wrote>>
Write == ~wrote /\ wrote' = TRUE /\ UNCHANGED <<cf, hs, n>> /\ (Export /\ cf.kind = "https" => PrintT("GEN " \o ToJson([host |-> hs])))
Next == Put \/ Write

Ev(sch) == [t |-> "req", type |-> "http", scheme |-> sch, host |-> hs, path |-> "/p", query |-> "q", ran |-> FALSE, same |-> TRUE, status |-> 0, to |-> Nowhere]
(* the host of http://<header>/p as a URL library sees it: up to the first of / ? #, after the last @, without the port *)
Before(t, cs) == LET S == {i \in 1 .. Len(t) : At(t, i) \in cs} IN IF S = {} THEN t ELSE Upto(t, Least(S) - 1)
AfterAt(t) == LET i == RFind(t, "@") IN From(t, i + 1)
UrlHost == LET a == AfterAt(Before(hs, {"/", "?", "#"})) IN IF StartsWith(a, "[") THEN Before(a, {"]"}) \o (IF Find(a, "]") > 0 THEN "]" ELSE "") ELSE Before(a, {":"})
NoBypass == cf.kind = "trusted" /\ Outcome(cf, Ev("http")) = "pass" => Allowed(cf, UrlHost)
Again(e) == [e EXCEPT !.host = Target(cf, e).netloc, !.scheme = Target(cf, e).scheme]
OneRedirect == Outcome(cf, Ev("http")) \in {"www", "https"} => Outcome(cf, Again(Ev("http"))) = "pass"
SecurePasses == cf.kind = "https" => Outcome(cf, Ev("https")) = "pass" /\ Outcome(cf, Ev("wss")) = "pass"
NotTheBareDomain == cf.kind = "trusted" /\ cf.allowed = <<"*.a.t">> => (HostOf(hs) = "a.t" => Outcome(cf, Ev("http")) = "400")
ASSUME HostOf("a.t:80") = "a.t" /\ HostOf("[::1]:80") = "[::1]" /\ HostOf("[::1]x") = "!" /\ HostOf("a:b") = "!" /\ HostOf("a/.t") = "!" /\ PortOf("[::1]:80") = "80" /\ PortOf("a:") = "" /\ PortOf("a") = ""
=============================================================================

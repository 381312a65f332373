-------------------------------- MODULE MC_Auth --------------------------------
(* The same connection step by step: the middleware asks the backend, then one *)
(* guard after the other looks at the credentials, then the endpoint runs.     *)
EXTENDS Auth, Json
CONSTANTS Names, MaxGuards, Export
VARIABLES cf, e, at, ph
vars == <<cf, e, at, ph>>
SeqOf(S) == CHOOSE q \in [1 .. Cardinality(S) -> S] : \A i, j \in 1 .. Cardinality(S) : i # j => q[i] # q[j]
Needs == {SeqOf(S) : S \in SUBSET Names}
Guards == [need : Needs, status : {403, 401}, redirect : {"", "/login"}]
Stacks == UNION {[1 .. k -> Guards] : k \in 0 .. MaxGuards}
E0 == [t |-> "conn", type |-> "http", says |-> "none", scopes |-> <<>>, user |-> "u", url |-> "U", calls |-> 0, ran |-> 0, auth |-> <<>>, who |-> "", authenticated |-> FALSE,
       status |-> 0, closed |-> FALSE, to |-> "", next |-> "", exc |-> FALSE]
Init == /\ cf \in [guards : Stacks, onerror : {400}] /\ at = 0 /\ ph = "new"
        /\ e \in {[E0 EXCEPT !.type = ty, !.says = sy, !.scopes = sc] : ty \in {"http", "websocket", "lifespan"}, sy \in {"none", "creds", "error", "boom"}, sc \in Needs}
        /\ (e.says # "creds" => e.scopes = <<>>)
        /\ (Export => PrintT("GEN " \o ToJson([cfg |-> cf, type |-> e.type, says |-> e.says, scopes |-> e.scopes])))
End(x) == ph' = "end" /\ e' = x /\ UNCHANGED <<cf, at>>
Ask == /\ ph = "new" /\ ~Export
       /\ IF e.type = "lifespan" THEN End(e)
          ELSE LET x == [e EXCEPT !.calls = 1] IN
            CASE e.says = "error" -> End(IF e.type = "http" THEN [x EXCEPT !.status = 400] ELSE [x EXCEPT !.closed = TRUE])
              [] e.says = "boom" -> End([x EXCEPT !.exc = TRUE])
              [] OTHER -> ph' = "guards" /\ at' = 1 /\ cf' = cf /\ e' = [x EXCEPT !.auth = e.scopes, !.authenticated = e.says = "creds", !.who = IF e.says = "creds" THEN e.user ELSE ""]
Guard == /\ ph = "guards" /\ at <= Len(cf.guards)
         /\ LET g == cf.guards[at] IN
            IF \A i \in 1 .. Len(g.need) : \E j \in 1 .. Len(e.auth) : e.auth[j] = g.need[i] THEN at' = at + 1 /\ UNCHANGED <<cf, e, ph>>
            ELSE End(IF e.type = "websocket" THEN [e EXCEPT !.closed = TRUE] ELSE IF g.redirect = "" THEN [e EXCEPT !.status = g.status] ELSE [e EXCEPT !.status = 303, !.to = g.redirect, !.next = e.url])
Run == ph = "guards" /\ at > Len(cf.guards) /\ End([e EXCEPT !.ran = 1, !.status = 299])
Next == Ask \/ Guard \/ Run
Agrees == ph = "end" => LET cs == Checks(cf, e) IN \A i \in 1 .. Len(cs) : cs[i][2]
Protected == e.ran > 0 => \A i \in 1 .. Len(cf.guards) : SeqSet(cf.guards[i].need) \subseteq Scopes(e)
NotOverdone == ph = "end" /\ e.type # "lifespan" /\ e.says \in {"none", "creds"} /\ UNION {SeqSet(cf.guards[i].need) : i \in 1 .. Len(cf.guards)} \subseteq Scopes(e) => e.ran = 1
=============================================================================

---------------------------------- MODULE Auth ----------------------------------
(* One connection through the authentication middleware and an endpoint behind *)
(* a stack of guards.  cfg: guards (outermost first: [need, status, redirect], *)
(* redirect = "" or a path), onerror = status of the error answer.             *)
(* Event conn: type (http | websocket | lifespan); says: what the backend does *)
(* (none | creds | error | boom), scopes, user (what it returned); url = the   *)
(* URL asked for; calls (of the backend), ran (times the endpoint ran), auth   *)
(* and who (what it saw), authenticated, status, closed (a websocket was       *)
(* closed before it was accepted), to, next (of a redirect), exc.              *)
EXTENDS Str

Scopes(e) == IF e.says = "creds" THEN SeqSet(e.scopes) ELSE {}
Met(g, e) == SeqSet(g.need) \subseteq Scopes(e)
Unmet(c, e) == {i \in 1 .. Len(c.guards) : ~Met(c.guards[i], e)}
Outcome(c, e) ==
  IF e.type = "lifespan" THEN "pass"
  ELSE CASE e.says = "error" -> "error" [] e.says = "boom" -> "boom"
         [] OTHER -> IF Unmet(c, e) = {} THEN "run" ELSE "denied"
Denier(c, e) == c.guards[Least(Unmet(c, e))]

InitState(cfg) == cfg
Checks(c, e) ==
  LET o == Outcome(c, e) IN
  <<<<"backend-asked-exactly-once", e.calls = (IF e.type = "lifespan" THEN 0 ELSE 1)>>,
    <<"runs-iff-every-scope-is-there", e.ran = (IF o = "run" THEN 1 ELSE 0)>>,
    <<"exposes-what-the-backend-returned", e.ran > 0 =>
        /\ e.auth = (IF e.says = "creds" THEN e.scopes ELSE <<>>)
        /\ e.who = (IF e.says = "creds" THEN e.user ELSE "")
        /\ e.authenticated = (e.says = "creds")>>,
    <<"only-a-failing-backend-fails", e.exc = (o = "boom")>>,
    <<"answer-of-the-endpoint", o = "run" /\ e.type = "http" => e.status = 299>>,
    <<"websocket-closed-when-refused", e.type = "websocket" /\ o \in {"denied", "error"} => e.closed>>,
    <<"error-answer", o = "error" /\ e.type = "http" => e.status = c.onerror>>,
    <<"refusal-as-configured", o = "denied" /\ e.type = "http" =>
        IF Denier(c, e).redirect = "" THEN e.status = Denier(c, e).status /\ e.to = "" ELSE e.status = 303 /\ e.to = Denier(c, e).redirect /\ e.next = e.url>>>>
Apply(c, e) == c
=============================================================================

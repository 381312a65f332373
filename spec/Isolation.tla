-------------------------------- MODULE Isolation --------------------------------
(* Several requests in one application at once.  cfg.reqs: what each of them   *)
(* brings along: [id, pp (path parameters), q, h, body (full, and as told), sess (its session), *)
(* user, host, origin, alone (the answer it gets alone)].                      *)
(* Events: step(r, w, saw): code working for request r sees [id, q, h, user,   *)
(* host, state, ctx]; ep(r, pp, sess): what the endpoint is told; read(r,      *)
(* body): the body it got; answer(r, round, saw, granted, cookie, all) the     *)
(* response: what it says it saw, the origin it grants, the session it sets    *)
(* (sess plus what the request added) and the whole of it.                     *)
EXTENDS Str

InitState(cfg) == [c |-> cfg, left |-> {}]
Checks(s, e) ==
  LET q == s.c.reqs[e.r] IN
  CASE e.t = "step" ->
         <<<<"own-query", e.saw.q = q.q>>, <<"own-headers", e.saw.h = q.h>>, <<"own-user", e.saw.user \in {q.user, ""}>>, <<"own-host", e.saw.host = q.host>>,
           <<"own-state", e.saw.state \in {q.id, ""}>>, <<"own-context", e.saw.ctx \in {q.id, ""}>>,
           <<"state-once-set-stays", <<e.r, e.round>> \in s.left => e.saw.state = q.id>>>>
    [] e.t = "ep" -> <<<<"own-path-parameters", e.pp = q.pp>>, <<"own-session", e.sess = q.sess>>>>
    [] e.t = "read" -> <<<<"own-body", e.body = q.full>>>>
    [] e.t = "answer" ->
         <<<<"answer-of-its-own", e.saw.id = q.id>>, <<"own-path-parameters", e.saw.pp = q.pp>>, <<"own-query", e.saw.q = q.q>>, <<"own-headers", e.saw.h = q.h>>,
           <<"own-body", e.saw.body = q.body>>, <<"own-session", e.saw.sess = q.sess>>, <<"own-user", e.saw.user = q.user>>, <<"own-state", e.saw.state = q.id>>,
           <<"own-origin", e.granted = q.origin>>, <<"own-session-cookie", e.cookie = q.left>>, <<"as-if-alone", e.all = q.alone>>>>
    [] OTHER -> <<<<"every-request-is-answered", FALSE>>>>
Apply(s, e) == IF e.t = "step" /\ e.saw.state # "" THEN [s EXCEPT !.left = @ \cup {<<e.r, e.round>>}] ELSE s
=============================================================================

-------------------------------- MODULE Methods --------------------------------
(* Which methods an endpoint answers.  cfg.style: "function" (declared methods *)
(* on its route), "class" (handlers named after methods), "both" (a class      *)
(* behind a route that declares methods).  cfg.declared: methods given to the  *)
(* route (upper case), cfg.given: whether any were; cfg.defined: handler names *)
(* of the class; cfg.none: names set to None (not handlers); cfg.sync: names   *)
(* of plain functions.                                                         *)
EXTENDS Str

Std == {"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS"}
InitState(cfg) == [cfg |-> cfg]

WithHead(M) == IF "GET" \in M THEN M \cup {"HEAD"} ELSE M
ByRoute(c) == WithHead(IF c.given THEN SeqSet(c.declared) ELSE {"GET"})
ByClass(c) == {Upper(c.defined[i]) : i \in 1 .. Len(c.defined)} \cup (IF "get" \in SeqSet(c.defined) /\ "head" \notin SeqSet(c.none) THEN {"HEAD"} ELSE {})
Supported(c) == CASE c.style = "function" -> ByRoute(c) [] c.style = "class" -> ByClass(c) [] OTHER -> ByRoute(c) \cap ByClass(c)
(* the handler a supported method runs *)
HandlerOf(c, m) == CASE c.style = "function" -> "fn"
                   [] m = "HEAD" /\ "head" \notin SeqSet(c.defined) -> "get"
                   [] OTHER -> Lower(m)
(* what Allow may list: the methods of whatever refuses the request *)
Refuser(c, m) == IF c.style = "function" \/ (c.style = "both" /\ m \notin ByRoute(c)) THEN "route" ELSE "class"
AllowOk(c, m, allow) ==
  LET A == SeqSet(allow)
  IN /\ Len(allow) = Cardinality(A)
     /\ IF Refuser(c, m) = "route" THEN A = ByRoute(c)
        ELSE A \subseteq ByClass(c) /\ {Upper(c.defined[i]) : i \in 1 .. Len(c.defined)} \cap Std \subseteq A

Checks(s, e) ==
  LET c == s.cfg IN
  IF e.m \in Supported(c)
  THEN <<<<"handler-runs-exactly-once", Len(e.runs) = 1>>,
         <<"the-method's-own-handler", Len(e.runs) = 1 => e.runs[1].h = HandlerOf(c, e.m)>>,
         <<"request-is-the-one-received", Len(e.runs) = 1 => e.runs[1].m = e.m>>,
         <<"in-a-thread-iff-plain", Len(e.runs) = 1 => (e.runs[1].thread <=> e.runs[1].h \in SeqSet(c.sync))>>,
         <<"its-response-is-sent", e.exc = "" /\ e.starts = 1 /\ e.done /\ (Len(e.runs) = 1 => e.status = e.runs[1].status /\ e.body = e.runs[1].body)>>>>
  ELSE <<<<"no-handler-runs", Len(e.runs) = 0>>,
         <<"method-not-allowed", e.exc = "" /\ e.starts = 1 /\ e.status = 405 /\ e.done>>,
         <<"allow-lists-the-methods", AllowOk(c, e.m, e.allow)>>>>
Apply(s, e) == s
=============================================================================

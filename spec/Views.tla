-------------------------------- MODULE Views --------------------------------
(* Views of connections (requests, websockets, plain connections) and what they *)
(* show.  A scope belongs to one connection; layers put things in it, and may    *)
(* pass a copy of it on.  Dictionaries live on a heap: the first is the state of *)
(* the application; the state of a connection is there from the start (given by  *)
(* the server, from the lifespan) or appears with the first view that asks.      *)
(* cfg.app: the pairs in the application's state at the start.                   *)
(* Events: start(has, init) a connection begins; fork(of) a scope is copied;      *)
(* view(sc) someone makes a view; set/get/del(v, k, val, how, got) through the   *)
(* state of a view; rawset/rawget(sc, k, ...) through the scope; aset/aget/adel  *)
(* in the state of the application; put(sc, k, val) into a scope; sput(sc, init) *)
(* a session; sset/sget/sdel(v, ...) through a view; look(v, k, how, got);       *)
(* keys(v, got); same(v, w, got).                                               *)
EXTENDS Str

Pairs(q) == {<<q[i][1], q[i][2]>> : i \in 1 .. Len(q)}
InitState(cfg) == [scopes |-> <<>>, dicts |-> <<Pairs(cfg.app)>>, views |-> <<>>]

Has1(D, k) == \E p \in D : p[1] = k
Get1(D, k) == (CHOOSE p \in D : p[1] = k)[2]
Put1(D, k, v) == {p \in D : p[1] # k} \cup {<<k, v>>}
Del1(D, k) == {p \in D : p[1] # k}

ScopeOf(s, v) == s.scopes[s.views[v].sc]
(* what the state of a view is, before anything happens *)
Seen(s, v) == IF s.views[v].d # 0 THEN s.dicts[s.views[v].d] ELSE IF ScopeOf(s, v).st # 0 THEN s.dicts[ScopeOf(s, v).st] ELSE {}
Touch(s, v) ==
  IF s.views[v].d # 0 THEN s
  ELSE IF ScopeOf(s, v).st # 0 THEN [s EXCEPT !.views[v].d = ScopeOf(s, v).st]
  ELSE [s EXCEPT !.dicts = Append(@, {}), !.scopes[s.views[v].sc].st = Len(s.dicts) + 1, !.views[v].d = Len(s.dicts) + 1]
Sess(s, v) == ScopeOf(s, v).ses

(* reading k of a dictionary: by attribute (or item), with a default, or asking whether it is there *)
Read(D, k, how) == IF how = "has" THEN (IF Has1(D, k) THEN "True" ELSE "False") ELSE IF Has1(D, k) THEN Get1(D, k) ELSE IF how = "default" THEN "None" ELSE "error"
Gone(D, k) == IF Has1(D, k) THEN "ok" ELSE "error"

Look(V, k, how) ==
  CASE how = "has" -> (IF Has1(V, k) THEN "True" ELSE "False")
    [] Has1(V, k) -> Get1(V, k)
    [] how = "default" -> "None"
    [] how = "prop" /\ k = "path_params" -> "{}"
    [] how = "prop" /\ k = "client" -> "None"
    [] OTHER -> "error"

Checks(s, e) ==
  CASE e.t = "get" -> <<<<"state-is-shared-by-all-views", e.got = Read(Seen(s, e.v), e.k, e.how)>>>>
    [] e.t = "del" -> <<<<"state-is-shared-by-all-views", e.got = Gone(Seen(s, e.v), e.k)>>>>
    [] e.t = "rawget" -> <<<<"state-is-that-of-the-scope", e.got = IF s.scopes[e.sc].st = 0 THEN "error" ELSE Read(s.dicts[s.scopes[e.sc].st], e.k, e.how)>>>>
    [] e.t = "aget" -> <<<<"one-state-of-the-application", e.got = Read(s.dicts[1], e.k, e.how)>>>>
    [] e.t = "adel" -> <<<<"one-state-of-the-application", e.got = Gone(s.dicts[1], e.k)>>>>
    [] e.t = "sset" -> <<<<"session-only-if-there-is-one", e.got = IF Sess(s, e.v) = 0 THEN "error" ELSE "ok">>>>
    [] e.t = "sget" -> <<<<"session-is-shared-by-all-views", e.got = IF Sess(s, e.v) = 0 THEN "error" ELSE Read(s.dicts[Sess(s, e.v)], e.k, e.how)>>>>
    [] e.t = "sdel" -> <<<<"session-is-shared-by-all-views", e.got = IF Sess(s, e.v) = 0 THEN "error" ELSE Gone(s.dicts[Sess(s, e.v)], e.k)>>>>
    [] e.t = "look" -> <<<<"view-shows-what-the-scope-holds", e.got = Look(ScopeOf(s, e.v).vals, e.k, e.how)>>>>
    [] e.t = "keys" -> <<<<"view-shows-what-the-scope-holds", SeqSet(e.got) = {p[1] : p \in ScopeOf(s, e.v).vals} /\ Len(e.got) = Cardinality(ScopeOf(s, e.v).vals)>>>>
    [] e.t = "same" -> <<<<"views-are-only-equal-to-themselves", e.got = (e.v = e.w)>>>>
    [] e.t = "failed" -> <<<<"the-connection-is-served", FALSE>>>>
    [] OTHER -> <<>>

Apply(s, e) ==
  CASE e.t = "start" -> IF e.has THEN [s EXCEPT !.dicts = Append(@, Pairs(e.init)), !.scopes = Append(@, [st |-> Len(s.dicts) + 1, ses |-> 0, vals |-> {}])]
                        ELSE [s EXCEPT !.scopes = Append(@, [st |-> 0, ses |-> 0, vals |-> {}])]
    [] e.t = "fork" -> [s EXCEPT !.scopes = Append(@, s.scopes[e.of])]
    [] e.t = "view" -> [s EXCEPT !.views = Append(@, [sc |-> e.sc, d |-> 0])]
    [] e.t = "get" -> Touch(s, e.v)
    [] e.t = "set" -> LET u == Touch(s, e.v) IN [u EXCEPT !.dicts[u.views[e.v].d] = Put1(@, e.k, e.val)]
    [] e.t = "del" -> LET u == Touch(s, e.v) IN [u EXCEPT !.dicts[u.views[e.v].d] = Del1(@, e.k)]
    [] e.t = "rawset" -> IF s.scopes[e.sc].st = 0 THEN s ELSE [s EXCEPT !.dicts[s.scopes[e.sc].st] = Put1(@, e.k, e.val)]
    [] e.t = "aset" -> [s EXCEPT !.dicts[1] = Put1(@, e.k, e.val)]
    [] e.t = "adel" -> [s EXCEPT !.dicts[1] = Del1(@, e.k)]
    [] e.t = "put" -> [s EXCEPT !.scopes[e.sc].vals = Put1(@, e.k, e.val)]
    [] e.t = "sput" -> [s EXCEPT !.dicts = Append(@, Pairs(e.init)), !.scopes[e.sc].ses = Len(s.dicts) + 1]
    [] e.t = "sset" -> IF Sess(s, e.v) = 0 THEN s ELSE [s EXCEPT !.dicts[Sess(s, e.v)] = Put1(@, e.k, e.val)]
    [] e.t = "sdel" -> IF Sess(s, e.v) = 0 THEN s ELSE [s EXCEPT !.dicts[Sess(s, e.v)] = Del1(@, e.k)]
    [] OTHER -> s
=============================================================================

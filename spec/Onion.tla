--------------------------------- MODULE Onion ---------------------------------
(* Middleware as layers around routers and endpoints.                          *)
(* A node: [k, name, id, mids, kids, ep]                                       *)
(*   app     error layer, mids, exception layer, then its kids by path         *)
(*   router  mids, then its kids by path                                       *)
(*   mount   one path segment, mids, then its only kid (a router or an app)    *)
(*   route   one path segment, mids, then the endpoint (ep: func | class | ws) *)
(* A middleware: [id, arg, base] (base: it sees HTTP requests only).           *)
EXTENDS Str

InitState(cfg) == [tree |-> cfg.tree, todo |-> <<>>, serving |-> {}, made |-> {}, leaves |-> TRUE, busy |-> FALSE, exc |-> ""]

Ly(k, id, base) == [k |-> k, id |-> id, base |-> base]
Mids(n) == [i \in 1 .. Len(n.mids) |-> Ly("M", n.mids[i].id, n.mids[i].base)]
Miss == <<Ly("missing", "", FALSE)>>

(* the layers a request for a path goes through, outermost first, ending in an endpoint or "missing" *)
RECURSIVE Chain(_, _, _)
Pick(kids, path, typ) ==
  IF path = <<>> THEN Miss
  ELSE LET i == FirstIdx(kids, LAMBDA x : x.name = path[1] /\ (x.k = "mount" \/ (Len(path) = 1 /\ ((x.ep = "ws") <=> (typ = "websocket")))))
       IN IF i = 0 THEN Miss ELSE Chain(kids[i], Tail(path), typ)
Chain(n, path, typ) ==
  CASE n.k = "app" -> <<Ly("E", n.id, FALSE)>> \o Mids(n) \o <<Ly("X", n.id, FALSE)>> \o Pick(n.kids, path, typ)
    [] n.k = "router" -> Mids(n) \o Pick(n.kids, path, typ)
    [] n.k = "mount" -> Mids(n) \o Chain(n.kids[1], path, typ)
    [] n.k = "route" -> Mids(n) \o (IF n.ep \in {"func", "ws"} THEN <<Ly("X", n.id, FALSE)>> ELSE <<>>) \o <<Ly("endpoint", n.id, FALSE)>>
(* what the lifespan messages go through *)
LifeChain(n) == <<Ly("E", n.id, FALSE)>> \o Mids(n) \o <<Ly("X", n.id, FALSE), Ly("life", "", FALSE)>>

Ev(t, id, st) == [t |-> t, id |-> id, st |-> st]
(* a response that starts inside layer j passes the middleware further out *)
RECURSIVE Starts(_, _, _)
Starts(ch, j, st) == IF j = 0 THEN <<>> ELSE (IF ch[j].k = "M" THEN <<Ev("start", ch[j].id, st)>> ELSE <<>>) \o Starts(ch, j - 1, st)
Out(ev, x, started) == [ev |-> ev, x |-> x, started |-> started]

(* oc: [k, at, st]: k = "ok" | "http" | "boom" (at the endpoint), "late" (an HTTPException after the response started), *)
(* "stop" | "before" | "after" | "swallow" at middleware oc.at                                                        *)

RECURSIVE Run(_, _, _)
Run(ch, i, oc) ==
  LET y == ch[i]
      inner == Run(ch, i + 1, oc)
      st == oc.st
  IN CASE y.k = "missing" -> Out(<<>>, "http404", FALSE)
       [] y.k = "life" -> Out(Starts(ch, i - 1, 0), "", TRUE)
       [] y.k = "endpoint" ->
            (CASE oc.k = "http" -> Out(<<Ev("endpoint", y.id, 0)>>, "http", FALSE)
               [] oc.k = "boom" -> Out(<<Ev("endpoint", y.id, 0)>>, "boom", FALSE)
               [] oc.k = "late" -> Out(<<Ev("endpoint", y.id, 0)>> \o Starts(ch, i - 1, st), "http", TRUE)
               [] OTHER -> Out(<<Ev("endpoint", y.id, 0)>> \o Starts(ch, i - 1, st), "", TRUE))
       [] y.k = "M" ->
            IF oc.at # y.id
            THEN Out(<<Ev("enter", y.id, 0)>> \o inner.ev \o <<Ev(IF inner.x = "" THEN "return" ELSE "raise", y.id, 0)>>, inner.x, inner.started)
            ELSE (CASE oc.k = "stop" -> Out(<<Ev("enter", y.id, 0)>> \o Starts(ch, i, st) \o <<Ev("return", y.id, 0)>>, "", TRUE)
                    [] oc.k = "before" -> Out(<<Ev("enter", y.id, 0), Ev("raise", y.id, 0)>>, "boom", FALSE)
                    [] oc.k = "after" -> Out(<<Ev("enter", y.id, 0)>> \o inner.ev \o <<Ev("raise", y.id, 0)>>, IF inner.x = "" THEN "boom" ELSE inner.x, inner.started)
                    [] oc.k = "swallow" -> IF inner.x = "" \/ inner.started
                                           THEN Out(<<Ev("enter", y.id, 0)>> \o inner.ev \o <<Ev("return", y.id, 0)>>, "", inner.started)
                                           ELSE Out(<<Ev("enter", y.id, 0)>> \o inner.ev \o Starts(ch, i, st) \o <<Ev("return", y.id, 0)>>, "", TRUE))
       [] y.k = "X" ->
            IF inner.x \notin {"http", "http404"} THEN inner
            ELSE IF inner.started THEN [inner EXCEPT !.x = "boom"]
            ELSE Out(inner.ev \o Starts(ch, i - 1, IF inner.x = "http404" THEN 404 ELSE st), "", TRUE)
       [] y.k = "E" ->
            LET here == <<Ev("reach", y.id, 0)>> IN
            IF inner.x = "" \/ inner.started THEN [inner EXCEPT !.ev = here \o @]
            ELSE [inner EXCEPT !.ev = here \o @ \o Starts(ch, i - 1, 500), !.started = TRUE]

Planned(s, e) ==
  LET full == IF e.typ = "lifespan" THEN LifeChain(s.tree) ELSE Chain(s.tree, e.path, e.typ)
      ch == SelectSeq(full, LAMBDA y : e.typ = "http" \/ ~y.base)
      r == Run(ch, 1, e.oc)
      leaves == \A i \in 1 .. Len(ch) : ~ch[i].base
  IN [todo |-> SelectSeq(r.ev, LAMBDA v : v.t # "reach" /\ (leaves \/ v.t \notin {"return", "raise"})),
      reach |-> {r.ev[i].id : i \in {j \in 1 .. Len(r.ev) : r.ev[j].t = "reach"}}, x |-> r.x, leaves |-> leaves]

RECURSIVE MidOf(_, _)
MidOf(n, id) == LET here == SelectSeq(n.mids, LAMBDA m : m.id = id)
                    below == [i \in 1 .. Len(n.kids) |-> MidOf(n.kids[i], id)]
                IN IF here # <<>> THEN here ELSE FlatSeq(below)
(* an application gets one more middleware, outermost *)
RECURSIVE AddTo(_, _, _)
AddTo(n, app, m) == [n EXCEPT !.mids = IF n.k = "app" /\ n.id = app THEN <<m>> \o @ ELSE @,
                              !.kids = [i \in 1 .. Len(@) |-> AddTo(@[i], app, m)]]
Checks(s, e) ==
  CASE e.t = "make" -> LET m == MidOf(s.tree, e.id) IN
         <<<<"built-once", e.id \notin s.made>>, <<"built-with-its-arguments", Len(m) = 1 /\ m[1].arg = e.arg>>>>
    [] e.t = "add" -> <<<<"no-middleware-after-serving", (e.app \in s.serving) <=> (e.exc # "")>>, <<"refused-with-RuntimeError", e.exc \in {"", "RuntimeError"}>>>>
    [] e.t = "request" -> <<<<"one-at-a-time", ~s.busy>>>>
    [] e.t = "done" -> <<<<"every-layer-runs", s.todo = <<>>>>, <<"exception-reaches-the-server", (e.exc # "") <=> (s.exc # "")>>>>
    [] e.t \in {"return", "raise"} /\ ~s.leaves -> <<>>
    [] OTHER -> <<<<"layers-in-declared-order", s.todo # <<>> /\ s.todo[1] = Ev(e.t, e.id, e.st)>>,
                  <<"built-before-used", e.t = "enter" => e.id \in s.made \/ ~e.own>>>>
Apply(s, e) ==
  CASE e.t = "make" -> [s EXCEPT !.made = @ \cup {e.id}]
    [] e.t = "add" -> IF e.exc # "" THEN s ELSE [s EXCEPT !.tree = AddTo(@, e.app, e.mid)]
    [] e.t = "request" -> LET p == Planned(s, e) IN
         [s EXCEPT !.todo = p.todo, !.leaves = p.leaves, !.exc = p.x, !.busy = TRUE, 
                  !.serving = @ \cup p.reach]
    [] e.t = "done" -> [s EXCEPT !.busy = FALSE]
    [] e.t \in {"return", "raise"} /\ ~s.leaves -> s
    [] OTHER -> [s EXCEPT !.todo = Tail(@)]
=============================================================================

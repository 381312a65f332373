------------------------------- MODULE MC_Template -------------------------------
(* The machine step by step: making a response copies the context given, adds the *)
(* request, runs one processor after the other, renders; contexts of the          *)
(* application change in between, and responses are sent in any order.            *)
EXTENDS Template, Json
CONSTANTS MaxOps, Export
VARIABLES s, cur, at, got, hist
vars == <<s, cur, at, got, hist>>
Reqs == {"r1", "r2"}
P(k, v, own) == [k |-> k, v |-> v, own |-> own]
Procs == {<<>>, <<<<P("a", "p", FALSE)>>>>, <<<<P("a", "p", FALSE), P("b", "<", TRUE)>>, <<P("a", "q", TRUE)>>>>}
Cfgs == {[procs |-> ps, escape |-> TRUE, known |-> <<<<"one", "1">>>>, ctxs |-> <<c1>>, bases |-> <<<<"r1", "B1">>, <<"r2", "B2">>>>, urlfor |-> ""] :
          ps \in Procs, c1 \in {<<>>, <<<<"a", "x">>>>, <<<<"b", "&">>, <<"request", "r1">>>>}}
Idle == [r |-> ""]
Init == /\ \E c \in Cfgs : s = InitState(c)
        /\ cur = Idle /\ at = 0 /\ got = <<>> /\ hist = <<>>
Log(h) == hist' = Append(hist, h)
Edit == /\ cur = Idle /\ Len(hist) < MaxOps
        /\ \E k \in {"a", "request"}, v \in {"y", "r2"} :
             /\ (k = "request") = (v = "r2")
             /\ Log([t |-> "edit", c |-> 1, k |-> k, v |-> v])
             /\ s' = [s EXCEPT !.ctxs[1] = Put(@, k, v)] /\ UNCHANGED <<cur, at, got>>
Begin == /\ cur = Idle /\ Len(hist) < MaxOps
         /\ \E r \in Reqs, c \in {0, 1}, old \in BOOLEAN, name \in {"one", "none"} :
              /\ (old => c = 1) /\ (\A i \in 1 .. Len(got) : got[i].r # r)
              /\ (c = 1 /\ ~old => Get(s.ctxs[1], "request", r) = r) /\ (old /\ ~Has(s.ctxs[1], "request") => name = "one")
              /\ cur' = [t |-> "make", r |-> r, name |-> name, c |-> c, old |-> old, status |-> 0, media |-> "", hdrs |-> <<>>, err |-> "",
                         ctxafter |-> IF c = 0 THEN <<>> ELSE s.ctxs[1], copy |-> IF c = 0 THEN <<>> ELSE s.ctxs[1]]
              /\ at' = 0 /\ Log([t |-> "make", r |-> r, c |-> c, old |-> old, name |-> name]) /\ UNCHANGED <<s, got>>
Done(e) == cur' = Idle /\ at' = 0 /\ s' = [s EXCEPT !.made = @] /\ got' = (IF e.err = "" THEN Append(got, e) ELSE got) /\ UNCHANGED hist
Default == /\ cur # Idle /\ at = 0
           /\ IF cur.old /\ ~Has(cur.copy, "request") THEN Done([cur EXCEPT !.err = "value"])
              ELSE /\ at' = 1 /\ cur' = [cur EXCEPT !.copy = IF Has(@, "request") THEN @ ELSE Append(@, <<"request", cur.r>>)]
                   /\ UNCHANGED <<s, got, hist>>
Process == /\ cur # Idle /\ at \in 1 .. Len(s.c.procs)
           /\ LET ps == s.c.procs[at] IN
              cur' = [cur EXCEPT !.copy = Fold(LAMBDA a, p : Append(SelectSeq(a, LAMBDA q : q[1] # p.k), <<p.k, IF p.own THEN p.v \o Get(cur.copy, "request", "") ELSE p.v>>), @, ps)]
           /\ at' = at + 1 /\ UNCHANGED <<s, got, hist>>
Render == /\ cur # Idle /\ at = Len(s.c.procs) + 1
          /\ IF cur.name = "none" THEN Done([cur EXCEPT !.err = "missing"]) ELSE Done(cur)
Next == Edit \/ Begin \/ Default \/ Process \/ Render
(* the copy at the end is the context of the specification, whatever happened meanwhile *)
NowDone == cur # Idle /\ at = Len(s.c.procs) + 1
Agrees == NowDone => SeqSet(cur.copy) = SeqSet(Context(s, cur)) /\ (\A i \in 1 .. Len(Checks(s, cur)) : Checks(s, [cur EXCEPT !.err = IF cur.name = "none" THEN "missing" ELSE ""])[i][2])
Own == NowDone /\ ~cur.old => Get(cur.copy, "request", "") = cur.r
ProcessorsWin == NowDone => \A i \in 1 .. Len(s.c.procs) : (i = Len(s.c.procs)) => \A p \in SeqSet(s.c.procs[i]) : StartsWith(Get(cur.copy, p.k, ""), p.v)
ExportHist == (Export /\ cur = Idle /\ Len(hist) = MaxOps) => PrintT("GEN " \o ToJson([cfg |-> s.c, ops |-> hist]))
=============================================================================

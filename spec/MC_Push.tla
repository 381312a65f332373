------------------------------- MODULE MC_Push -------------------------------
(* An application promising and responding through layers: some pass messages   *)
(* on, some hold the start back until the body comes, some run the application  *)
(* as a task of its own and take its messages over one at a time, with promises  *)
(* passing by (relay) or waiting their turn (queue).  Every interleaving is      *)
(* checked against the clauses of Push.tla; programs and layers are exported.    *)
EXTENDS Push, Json
CONSTANTS MaxLayers, MaxProg, Export
VARIABLES layers, prog, s, q, held, bad
vars == <<layers, prog, s, q, held, bad>>

Kinds == {"pass", "hold", "relay", "queue"}
N == Len(layers)
HS == <<<<"accept", "*/*">>, <<"cookie", "c">>>>

Init == /\ \E n \in 0 .. MaxLayers : layers \in [1 .. n -> Kinds]
        /\ prog = <<>> /\ bad = FALSE
        /\ \E x \in BOOLEAN : s = InitState([reqs |-> <<[ext |-> x, headers |-> HS]>>])
        /\ q = [i \in 1 .. N |-> <<>>] /\ held = [i \in 1 .. N |-> <<>>]

IsPush(m) == m.ty = "http.response.push"
(* events to check, in order, and where things are meanwhile *)
Out(st, m) == [st EXCEPT !.ev = Append(@, [t |-> "told", r |-> 1] @@ m)]
RECURSIVE Fwd(_, _, _)
Fwd(st, i, m) ==
  IF i = 0 THEN Out(st, m)
  ELSE LET k == layers[i] IN
       IF k = "queue" \/ (k = "relay" /\ ~IsPush(m)) THEN [st EXCEPT !.q[i] = Append(@, m)]
       ELSE IF k = "hold" /\ m.ty = "http.response.start" THEN [st EXCEPT !.held[i] = <<m>>]
       ELSE IF k = "hold" /\ m.ty = "http.response.body" /\ st.held[i] # <<>>
            THEN Fwd(Fwd([st EXCEPT !.held[i] = <<>>], i - 1, st.held[i][1]), i - 1, m)
       ELSE Fwd(st, i - 1, m)

Step(a, e) == [s |-> Apply(a.s, e), bad |-> a.bad \/ \E i \in 1 .. Len(Checks(a.s, e)) : ~Checks(a.s, e)[i][2]]
Take(st) == LET a == Fold(Step, [s |-> s, bad |-> bad], st.ev) IN
            s' = a.s /\ bad' = a.bad /\ q' = st.q /\ held' = st.held
St0 == [ev |-> <<>>, q |-> q, held |-> held]

(* a layer's taker of messages is held up while the one in front of it still has some *)
Blocked(i) == LET f == {j \in 1 .. i : layers[j] \in {"relay", "queue"}} IN f # {} /\ q[Greatest(f)] # <<>>
Count(ty) == Len(SelectSeq(prog, LAMBDA x : x = ty))

App(x, ev1, m) == prog' = Append(prog, x) /\ Take(Fwd([St0 EXCEPT !.ev = <<ev1>>], N, m)) /\ UNCHANGED layers
Free == ~Blocked(N) /\ Len(prog) < MaxProg /\ Count("last") = 0
Path == "p" \o ToString(Count("push") + 1)
PushIt == /\ Free
          /\ IF s[1].ext THEN App("push", [t |-> "push", r |-> 1, path |-> Path], [ty |-> "http.response.push", path |-> Path, headers |-> <<HS[1]>>])
             ELSE prog' = Append(prog, "push") /\ Take([St0 EXCEPT !.ev = <<[t |-> "push", r |-> 1, path |-> Path]>>]) /\ UNCHANGED layers
Start == /\ Free /\ Count("start") = 0
         /\ App("start", [t |-> "emit", r |-> 1, ty |-> "http.response.start"], [ty |-> "http.response.start"])
Body == /\ Free /\ Count("start") = 1
        /\ \E l \in BOOLEAN : App(IF l THEN "last" ELSE "body", [t |-> "emit", r |-> 1, ty |-> "http.response.body", body |-> "c", last |-> l],
                                   [ty |-> "http.response.body", last |-> l])
Move(i) == /\ layers[i] \in {"relay", "queue"} /\ q[i] # <<>> /\ ~Blocked(i - 1)
           /\ Take(Fwd([St0 EXCEPT !.q[i] = Tail(@)], i - 1, Head(q[i]))) /\ UNCHANGED <<layers, prog>>
Ret == /\ Count("last") = 1 /\ ~s[1].over /\ \A i \in 1 .. N : q[i] = <<>>
       /\ Take([St0 EXCEPT !.ev = <<[t |-> "ret", r |-> 1, exc |-> "", body |-> s[1].body]>>]) /\ UNCHANGED <<layers, prog>>
       /\ Export => PrintT("GEN " \o ToJson([layers |-> layers, prog |-> prog, ext |-> s[1].ext]))
Next == PushIt \/ Start \/ Body \/ Ret \/ \E i \in 1 .. N : Move(i)

Lawful == ~bad
AllKept == s[1].over /\ s[1].ext => s[1].got = Len(s[1].made)
Nothing == ~s[1].ext => s[1].got = 0
(* the server never has seen part of a response without what came before it *)
Ordered == s[1].ext /\ s[1].started => s[1].got >= s[1].before
=============================================================================

-------------------------------- MODULE MC_Wsgi --------------------------------
(* An application thread, a queue and a sender: every program of the application *)
(* and every pace of the sender satisfies the clauses of Wsgi; what the client   *)
(* has seen is always a prefix of what the application gave, with one start and  *)
(* one end, and nothing is over before the queue is empty.                       *)
EXTENDS Wsgi, Json
CONSTANTS MaxChunks, Export
VARIABLES st, ok, ap, q, client, gave, n, hist
vars == <<st, ok, ap, q, client, gave, n, hist>>
Cfg == [method |-> "GET", root |-> "/r", path |-> "/r/p", query |-> "", headers |-> << <<"x-a", "1">>, <<"x-a", "2">> >>, body |-> "", scheme |-> "http", server |-> "s|80", client |-> "c", version |-> "1.1"]
Saw == [method |-> "GET", script |-> "/r", path |-> "/p", query |-> "", headers |-> << <<"HTTP_X_A", "1,2">> >>, body |-> "", scheme |-> "http", server |-> "s|80", client |-> "c", protocol |-> "HTTP/1.1"]
All(s, e) == \A c \in {Checks(s, e)[i] : i \in 1 .. Len(Checks(s, e))} : c[2]
Do(e) == st' = Apply(st, e) /\ ok' = (ok /\ All(st, e))
H(x) == hist' = IF Export THEN Append(hist, x) ELSE hist
Put(m) == q' = Append(q, m) /\ gave' = Append(gave, m)
Init == st = InitState(Cfg) /\ ok = TRUE /\ ap = "new" /\ q = <<>> /\ client = <<>> /\ gave = <<>> /\ n = 0 /\ hist = <<>>
Call == ap = "new" /\ ap' = "called" /\ Do([t |-> "environ", saw |-> Saw, loop |-> FALSE]) /\ UNCHANGED <<q, client, gave, n, hist>>
St(k, r) == [t |-> "start", status |-> k, headers |-> <<>>, report |-> r]
StartIt(r) == /\ ap \in {"called", "iter0"} /\ ~st.started /\ Do(St(200, r)) /\ Put(Start(St(200, r))) /\ ap' = ap /\ UNCHANGED <<client, n>> /\ H(IF r THEN "start-report" ELSE "start")
Again == st.started /\ ~st.report /\ ap \in {"called", "iter0", "iter"} /\ Do(St(500, TRUE)) /\ UNCHANGED <<q, gave, ap, client, n>> /\ H("again")
Give == ap = "called" /\ ap' = "iter0" /\ Do([t |-> "given"]) /\ UNCHANGED <<q, client, gave, n>> /\ H("give")
Chunk == ap \in {"iter0", "iter"} /\ st.started /\ n < MaxChunks /\ n' = n + 1 /\ ap' = "iter" /\ Do([t |-> "chunk", data |-> ToString(n)]) /\ Put(Body(ToString(n))) /\ UNCHANGED client /\ H("chunk")
Raise == ap \in {"called", "iter0", "iter"} /\ ap' = (IF st.given THEN "fail" ELSE "failed") /\ Do([t |-> "raise"]) /\ UNCHANGED <<q, client, gave, n>> /\ H("raise")
End == ap \in {"iter0", "iter"} /\ st.started /\ ap' = "ended" /\ Do([t |-> "end"]) /\ UNCHANGED <<q, client, gave, n>> /\ H("end")
Close == ap \in {"ended", "fail"} /\ ap' = (IF ap = "fail" THEN "failed" ELSE "closed") /\ Do([t |-> "closed"]) /\ UNCHANGED <<q, client, gave, n, hist>>
Final == ap = "closed" /\ ap' = "finished" /\ q' = Append(q, [Body("") EXCEPT !.more = FALSE]) /\ gave' = Append(gave, [Body("") EXCEPT !.more = FALSE]) /\ UNCHANGED <<st, ok, client, n, hist>>
Send == q # <<>> /\ ap # "over" /\ q' = Tail(q) /\ client' = Append(client, q[1]) /\ Do([t |-> "sent", kind |-> q[1].kind, status |-> q[1].status, headers |-> q[1].headers, data |-> q[1].data, more |-> q[1].more])
        /\ UNCHANGED <<ap, gave, n, hist>>
Exc == IF st.raised THEN "raised" ELSE IF st.report THEN "reported" ELSE "none"
Over == ((ap = "finished" /\ q = <<>>) \/ ap = "failed") /\ ap' = "over" /\ Do([t |-> "over", exc |-> Exc]) /\ UNCHANGED <<q, client, gave, n, hist>>
        /\ (Export /\ q = <<>> => PrintT("GEN " \o ToJson([hist |-> hist])))
Next == Call \/ StartIt(TRUE) \/ StartIt(FALSE) \/ Again \/ Give \/ Chunk \/ Raise \/ End \/ Close \/ Final \/ Send \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AllClausesHold == ok
Starts(x) == Len(SelectSeq(x, LAMBDA m : m.kind = "start"))
Ends(x) == Len(SelectSeq(x, LAMBDA m : ~m.more))
Faithful == client = SubSeq(gave, 1, Len(client)) /\ Starts(client) <= 1 /\ Ends(client) <= 1 /\ (client # <<>> => client[1].kind = "start")
OverMeansAll == (ap = "over" /\ ~st.raised) => client = gave /\ Ends(client) = 1
EndsSometime == <>(ap = "over")
=============================================================================

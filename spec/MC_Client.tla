------------------------------- MODULE MC_Client -------------------------------
(* A client of two queues and one task per session, a caller and an application *)
(* doing all they can: whatever such a client shows satisfies the clauses of    *)
(* Client, each side receives a prefix of what the other sent, startups and     *)
(* shutdowns match the contexts, and nobody waits for ever unless the other     *)
(* side has stopped talking.                                                    *)
EXTENDS Client, Json
CONSTANTS MaxOps, MaxSessions, MaxQ, Export
VARIABLES st, ok, cl, ap, q1, q2, csent, crecvd, asent, arecvd, n, left, hist
vars == <<st, ok, cl, ap, q1, q2, csent, crecvd, asent, arecvd, n, left, hist>>
(* cl: where the caller is; ap: where the application is; q1 to the application, q2 back *)
Data(i) == Msg("data", IF i % 2 = 0 THEN "text" ELSE "bytes", ToString(i), 0, "")
Bye == Msg("close", "", "", 4000, "r")
Quit == Msg("disconnect", "", "", 4001, "x")
Accept == Msg("accept", "p", "h", 0, "")
Deny == Msg("deny", "", "h", 403, "")
Cfg == [raise |-> TRUE, root |-> "", client |-> ""]
Req == [method |-> "GET", path |-> "/", raw |-> "/", query |-> "", scheme |-> "ws", server |-> "s", headers |-> <<>>, host |-> "s", subs |-> <<>>, body |-> "", then |-> <<>>]
Init == /\ st = InitState(Cfg) /\ ok = TRUE /\ cl = "out" /\ ap = "off" /\ q1 = <<>> /\ q2 = <<>> /\ csent = <<>> /\ crecvd = <<>> /\ asent = <<>> /\ arecvd = <<>>
        /\ n = 0 /\ left = MaxSessions /\ hist = <<>>
All(s, e) == \A c \in {Checks(s, e)[i] : i \in 1 .. Len(Checks(s, e))} : c[2]
Do(e) == st' = Apply(st, e) /\ ok' = (ok /\ All(st, e))
Do2(e, f) == st' = Apply(Apply(st, e), f) /\ ok' = (ok /\ All(st, e) /\ All(Apply(st, e), f))
H(x) == hist' = IF Export THEN Append(hist, x) ELSE hist
E(t) == [t |-> t]
Quiet == UNCHANGED <<q1, q2, csent, crecvd, asent, arecvd, n, ap>>

(* contexts: the application's lifespan runs within them *)
Enter == cl = "out" /\ left > 0 /\ cl' = "entering" /\ Do(E("enter")) /\ Quiet /\ UNCHANGED <<left, hist>>
Up == cl = "entering" /\ st.ups = 0 /\ cl' = cl /\ Do2(E("up"), [t |-> "upped", how |-> "complete", state |-> ""]) /\ Quiet /\ UNCHANGED <<left, hist>>
Entered == cl = "entering" /\ st.ups = 1 /\ cl' = "in" /\ Do([t |-> "entered", raised |-> FALSE, same |-> TRUE]) /\ Quiet /\ UNCHANGED <<left, hist>>
Exit == cl = "in" /\ cl' = "leaving" /\ Do(E("exit")) /\ Quiet /\ UNCHANGED <<left, hist>>
Down == cl = "leaving" /\ st.downs = 0 /\ cl' = cl /\ Do2(E("down"), [t |-> "downed", how |-> "complete"]) /\ Quiet /\ UNCHANGED <<left, hist>>
Exited == cl = "leaving" /\ st.downs = 1 /\ cl' = "out" /\ Do([t |-> "exited", raised |-> FALSE, same |-> TRUE]) /\ Quiet /\ UNCHANGED <<left, hist>>

(* a session *)
Saw == [method |-> "GET", path |-> "/", raw |-> "/", query |-> "", scheme |-> "ws", server |-> "s", headers |-> << <<"host", "s">> >>, subs |-> <<>>, root |-> "", client |-> "", state |-> ""]
Ask == /\ cl = "in" /\ left > 0 /\ left' = left - 1 /\ cl' = "asking" /\ ap' = "new" /\ q1' = <<Connect>> /\ q2' = <<>>
       /\ csent' = <<Connect>> /\ crecvd' = <<>> /\ asent' = <<>> /\ arecvd' = <<>> /\ n' = 0 /\ Do2([t |-> "ask", ws |-> TRUE, req |-> Req], [t |-> "scope", saw |-> Saw]) /\ hist' = <<>>
Same == UNCHANGED <<left>>
ASend(m, next) == ap' = next /\ q2' = Append(q2, m) /\ asent' = Append(asent, m) /\ Do([t |-> "asend", m |-> m]) /\ UNCHANGED <<q1, csent, crecvd, arecvd, cl>> /\ Same
ARecv == /\ ap \in {"new", "up"} /\ q1 # <<>> /\ n < MaxOps /\ n' = n + 1
         /\ ap' = (IF ap = "new" THEN "asked" ELSE IF q1[1].ty = "disconnect" THEN "gone" ELSE "up") /\ q1' = Tail(q1) /\ arecvd' = Append(arecvd, q1[1])
         /\ Do([t |-> "arecv", m |-> q1[1]]) /\ UNCHANGED <<q2, csent, crecvd, asent, cl>> /\ Same /\ H("a:recv")
AAccept == ap = "asked" /\ n' = n /\ ASend(Accept, "up") /\ H("a:accept")
ARefuse == ap = "asked" /\ n' = n /\ ASend(Bye, "done") /\ H("a:refuse")
ADeny == ap = "asked" /\ n' = n /\ ASend(Deny, "denying") /\ H("a:deny")
ADenyBody == ap = "denying" /\ n < MaxOps /\ n' = n + 1 /\ ASend(Data(n), "denying") /\ H("a:deny-body")
ADenyEnd == ap = "denying" /\ n' = n /\ ASend(Data(n), "denied") /\ H("a:deny-end")
AData == ap = "up" /\ n < MaxOps /\ n' = n + 1 /\ Len(q2) < MaxQ /\ ASend(Data(n), "up") /\ H("a:send")
AClose == ap = "up" /\ n' = n /\ ASend(Bye, "done") /\ H("a:close")
ARaise == ap \in {"asked", "up", "gone"} /\ ap' = "raised" /\ Do(E("raise")) /\ UNCHANGED <<q1, q2, csent, crecvd, asent, arecvd, cl, n>> /\ Same /\ H("a:raise")
AEnd == ap \in {"up", "gone"} /\ ap' = "done" /\ UNCHANGED <<st, ok, q1, q2, csent, crecvd, asent, arecvd, cl, n>> /\ Same /\ H("a:end")

CTake(t) == q2' = Tail(q2) /\ crecvd' = Append(crecvd, q2[1]) /\ UNCHANGED <<q1, csent, asent, arecvd, ap>> /\ Same
COpen == cl = "asking" /\ q2 # <<>> /\ q2[1].ty = "accept" /\ CTake("opened") /\ cl' = "open" /\ n' = n /\ Do([t |-> "opened", kind |-> "p", data |-> "h"]) /\ UNCHANGED hist
CRefused == cl = "asking" /\ q2 # <<>> /\ q2[1].ty = "close" /\ CTake("refused") /\ cl' = "in" /\ n' = n /\ Do([t |-> "refused", code |-> 4000, reason |-> "r"]) /\ UNCHANGED hist
CDenied == /\ cl = "asking" /\ ap = "denied" /\ q2 # <<>> /\ cl' = "in" /\ q2' = <<>> /\ crecvd' = crecvd \o q2 /\ UNCHANGED <<q1, csent, asent, arecvd, ap, n, hist>> /\ Same
           /\ Do([t |-> "denied", code |-> 403, data |-> "h", body |-> Chunks(Tail(q2))])
CFailed == cl = "asking" /\ ap = "raised" /\ cl' = "in" /\ Do([t |-> "failed", same |-> TRUE]) /\ UNCHANGED <<q1, q2, csent, crecvd, asent, arecvd, ap, n, hist>> /\ Same
CRecv == cl = "open" /\ q2 # <<>> /\ q2[1].ty = "data" /\ ap # "raised" /\ CTake("crecv") /\ cl' = "open" /\ n' = n /\ Do([t |-> "crecv", m |-> q2[1]]) /\ H("c:recv")
CClosed == cl = "open" /\ q2 # <<>> /\ q2[1].ty = "close" /\ ap # "raised" /\ CTake("closed") /\ cl' = "open" /\ n' = n /\ Do([t |-> "closed", code |-> 4000, reason |-> "r"]) /\ H("c:recv")
CSend == cl = "open" /\ n < MaxOps /\ n' = n + 1 /\ Len(q1) < MaxQ /\ ap # "raised" /\ q1' = Append(q1, Data(n)) /\ csent' = Append(csent, Data(n)) /\ Do([t |-> "csend", m |-> Data(n)])
         /\ UNCHANGED <<q2, crecvd, asent, arecvd, ap, cl>> /\ Same /\ H("c:send")
CQuit == cl = "open" /\ n < MaxOps /\ n' = n + 1 /\ ap # "raised" /\ q1' = Append(q1, Quit) /\ csent' = Append(csent, Quit) /\ Do([t |-> "csend", m |-> Quit])
         /\ UNCHANGED <<q2, crecvd, asent, arecvd, ap, cl>> /\ Same /\ H("c:close")
CLeave == /\ cl = "open" /\ cl' = "going" /\ q1' = Append(q1, Gone) /\ csent' = Append(csent, Gone) /\ Do(E("leave")) /\ UNCHANGED <<q2, crecvd, asent, arecvd, ap, n>> /\ Same /\ H("c:leave")
CLeft == /\ cl = "going" /\ cl' = "in" /\ Do([t |-> "left", raised |-> (ap = "raised"), same |-> TRUE]) /\ UNCHANGED <<q1, q2, csent, crecvd, asent, arecvd, ap, n, hist>> /\ Same
         /\ Export => PrintT("GEN " \o ToJson([hist |-> hist]))
Fin == Export /\ cl \in {"asking"} /\ ap \in {"done", "denied", "raised"} /\ PrintT("GEN " \o ToJson([hist |-> hist])) /\ UNCHANGED vars
Next == (Enter \/ Up \/ Entered \/ Exit \/ Down \/ Exited \/ Ask \/ AAccept \/ ARefuse \/ ADeny \/ ADenyBody \/ ADenyEnd \/ AData \/ AClose \/ ARaise \/ AEnd \/ ARecv
         \/ COpen \/ CRefused \/ CDenied \/ CFailed \/ CRecv \/ CClosed \/ CSend \/ CQuit \/ CLeave \/ CLeft) \/ Fin
Spec == Init /\ [][Next]_vars
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
AllClausesHold == ok
InOrder == Prefix(arecvd, csent) /\ Prefix(crecvd, asent)
Matched == (st.phase = "in" => st.ups = 1 /\ st.downs = 0) /\ (st.phase = "out" => st.ups = st.downs)
(* whoever waits to be let in is let in, or told why not, once the application has spoken *)
Answered == (cl = "asking" /\ ap \in {"up", "done", "denied", "raised"}) => ENABLED (COpen \/ CRefused \/ CDenied \/ CFailed)
=============================================================================

------------------------------ MODULE MC_Stream ------------------------------
(* The streaming response as two racing tasks (producer/sender and listener),  *)
(* with cancellation; every interleaving of producing, holding and losing      *)
(* sends, and the client leaving, checked against the clauses of Stream.tla.   *)
EXTENDS Stream, Json
CONSTANTS MaxChunks, Depth, Export
VARIABLES s, pc, cancel, script, bad, hist
vars == <<s, pc, cancel, script, bad, hist>>

Holds(st, e) == \A i \in 1 .. Len(Checks(st, e)) : Checks(st, e)[i][2]
Ev(e) == /\ bad' = (bad \/ ~Holds(s, e)) /\ s' = Apply(s, e)
Log(a) == hist' = Append(hist, a) /\ (Export => PrintT("GEN " \o ToJson([old |-> s.old, bg |-> s.bg, acts |-> hist'])))
Keep == hist' = hist

Init == /\ \E o, b \in BOOLEAN : s = InitState([old |-> o, bg |-> b])
        /\ pc = "start" /\ cancel = FALSE /\ script = <<>> /\ bad = FALSE /\ hist = <<>>

(* internal steps of the implementation *)
Send(k, c, hold) == Ev([t |-> "told", k |-> k, c |-> c, hold |-> hold])
SendStart == /\ pc = "start" /\ ~cancel
             /\ \E h \in BOOLEAN : Send("start", "", h) /\ pc' = (IF h THEN "wait-start" ELSE "next")
                                     /\ Log([a |-> "send", hold |-> h])
             /\ UNCHANGED <<cancel, script>>
AskNext == pc = "next" /\ ~cancel /\ Ev([t |-> "step"]) /\ pc' = "producing" /\ UNCHANGED <<cancel, script>> /\ Keep
SendChunk == /\ pc = "made" /\ ~cancel
             /\ \E h \in BOOLEAN : Send("chunk", s.made[Len(s.made)], h) /\ pc' = (IF h THEN "wait-chunk" ELSE "next")
                                     /\ Log([a |-> "send", hold |-> h])
             /\ UNCHANGED <<cancel, script>>
SendFinal == /\ pc = "ended" /\ ~cancel
             /\ \E h \in BOOLEAN : Send("final", "", h) /\ pc' = (IF h THEN "wait-final" ELSE "bg") /\ Log([a |-> "send", hold |-> h])
             /\ UNCHANGED <<cancel, script>>
(* environment *)
Produce == /\ pc = "producing" /\ ~cancel /\ Len(s.made) < MaxChunks
           /\ Ev([t |-> "made", c |-> "x"]) /\ pc' = "made" /\ UNCHANGED <<cancel, script>> /\ Log([a |-> "make"])
Finish == /\ pc = "producing" /\ ~cancel
          /\ \E how \in {"ended", "raised"} : /\ Ev([t |-> "prod", how |-> how, err |-> "E"])
                                              /\ pc' = (IF how = "ended" THEN "ended" ELSE "fail")
                                              /\ Log([a |-> how])
          /\ UNCHANGED <<cancel, script>>
Waiting == pc \in {"wait-start", "wait-chunk", "wait-final"}
Release == /\ Waiting /\ ~cancel /\ Ev([t |-> "release"]) /\ pc' = (IF pc = "wait-final" THEN "bg" ELSE "next")
           /\ UNCHANGED <<cancel, script>> /\ Log([a |-> "release"])
Lose == /\ Waiting /\ ~cancel /\ Ev([t |-> "lost"]) /\ pc' = "lost" /\ UNCHANGED <<cancel, script>> /\ Log([a |-> "lose"])
Leave == /\ s.old /\ ~s.gone /\ pc \notin {"bg", "over", "lost", "fail"} /\ Ev([t |-> "gone"]) /\ cancel' = TRUE
         /\ UNCHANGED <<pc, script>> /\ Log([a |-> "leave"])
(* cancellation reaches the sender wherever it waits *)
Cancelled == /\ cancel /\ pc \notin {"bg", "over", "fail", "lost"} /\ Keep
             /\ IF pc = "producing" THEN Ev([t |-> "prod", how |-> "cancelled", err |-> ""]) ELSE UNCHANGED <<s, bad>>
             /\ pc' = "bg" /\ UNCHANGED <<cancel, script>>
Background == /\ pc = "bg" /\ Keep
              /\ IF s.bg /\ s.bgs = 0 THEN Ev([t |-> "bg"]) /\ pc' = "bg"
                 ELSE Ev([t |-> "ret", exc |-> "", same |-> TRUE]) /\ pc' = "over"
              /\ UNCHANGED <<cancel, script>>
Fail == /\ pc \in {"fail", "lost"} /\ Keep
        /\ Ev([t |-> "ret", same |-> TRUE, exc |-> IF pc = "fail" THEN "E" ELSE IF s.old THEN "OSError" ELSE "ClientDisconnect"])
        /\ pc' = "over" /\ UNCHANGED <<cancel, script>>
Next == Len(hist) < Depth /\ (SendStart \/ AskNext \/ SendChunk \/ SendFinal \/ Produce \/ Finish \/ Release \/ Lose
                              \/ Leave \/ Cancelled \/ Background \/ Fail)
View == <<s, pc, cancel, bad>>
Lawful == ~bad
FinalMeansAll == s.fin => (s.prod = "ended" /\ s.told = Len(s.made))
NoFinalOnFailure == (s.prod = "raised" \/ s.lost) => ~(s.fin /\ s.prod = "raised")
CompleteOnReturn == (s.over /\ ~s.gone /\ ~s.lost /\ s.prod # "raised") => s.fin
=============================================================================

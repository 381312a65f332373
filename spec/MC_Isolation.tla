------------------------------- MODULE MC_Isolation -------------------------------
(* Requests as processes through shared layers: each enters the middleware     *)
(* (which gives it its state), the router (parameters), reads its body in      *)
(* pieces, and is answered.  All that is shared is the application, built at   *)
(* the first request.  Every interleaving gives each its own answer.           *)
EXTENDS Isolation, Json
CONSTANTS N, Chunks, Export
VARIABLES pc, loc, built, out, hist
vars == <<pc, loc, built, out, hist>>
R == 1 .. N
In(r) == [id |-> r, body |-> [i \in 1 .. Chunks |-> <<r, i>>]]
Init == pc = [r \in R |-> "new"] /\ loc = [r \in R |-> [state |-> 0, pp |-> 0, body |-> <<>>]] /\ built = 0 /\ out = [r \in R |-> <<>>] /\ hist = <<>>
Go(r) == hist' = IF Export THEN Append(hist, r) ELSE hist
Enter(r) == pc[r] = "new" /\ pc' = [pc EXCEPT ![r] = "mw"] /\ built' = (IF built = 0 THEN 1 ELSE built) /\ UNCHANGED <<loc, out>> /\ Go(r)
Middle(r) == pc[r] = "mw" /\ pc' = [pc EXCEPT ![r] = "route"] /\ loc' = [loc EXCEPT ![r].state = In(r).id] /\ UNCHANGED <<built, out>> /\ Go(r)
Route(r) == pc[r] = "route" /\ pc' = [pc EXCEPT ![r] = "body"] /\ loc' = [loc EXCEPT ![r].pp = In(r).id] /\ UNCHANGED <<built, out>> /\ Go(r)
Chunk(r) == pc[r] = "body" /\ Len(loc[r].body) < Chunks /\ loc' = [loc EXCEPT ![r].body = Append(@, In(r).body[Len(@) + 1])] /\ UNCHANGED <<pc, built, out>> /\ Go(r)
Answer(r) == pc[r] = "body" /\ Len(loc[r].body) = Chunks /\ pc' = [pc EXCEPT ![r] = "done"] /\ out' = [out EXCEPT ![r] = <<loc[r]>>] /\ UNCHANGED <<loc, built>> /\ Go(r)
Fin == (\A r \in R : pc[r] = "done") /\ Export /\ PrintT("GEN " \o ToJson([n |-> N, hist |-> hist])) /\ UNCHANGED vars
Next == (\E r \in R : Enter(r) \/ Middle(r) \/ Route(r) \/ Chunk(r) \/ Answer(r)) \/ Fin
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Alone(r) == [state |-> r, pp |-> r, body |-> [i \in 1 .. Chunks |-> <<r, i>>]]
AsIfAlone == \A r \in R : out[r] # <<>> => out[r][1] = Alone(r)
BuiltOnce == built <= 1
=============================================================================

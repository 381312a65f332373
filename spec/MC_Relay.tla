------------------------------ MODULE MC_Relay ------------------------------
(* All stacks of layers and all ways the application can go.  The view a stack *)
(* presents only ever grows, is never complete for an application that failed  *)
(* half way (unless a layer answered for it), and is a well-formed response;   *)
(* an error is either visible to the caller or was handled by a layer.         *)
EXTENDS Relay, Json
CONSTANTS MaxLayers, MaxSteps, Export
Kinds == {"pass", "bg", "header", "upper", "answer", "replace", "catch", "consume", "raise", "early"}
VARIABLES ls, a, n, script
vars == <<ls, a, n, script>>
Seqs(S, k) == UNION {[1 .. i -> S] : i \in 0 .. k}

Init == /\ ls \in Seqs(Kinds, MaxLayers) /\ ls # <<>>
        /\ a = [App0 EXCEPT !.state = IF Reaches(ls) THEN "running" ELSE "none"]
        /\ n = 0 /\ script = <<>>

Do(b, x) == /\ a' = b /\ n' = n + 1 /\ ls' = ls /\ script' = Append(script, x)
            /\ (Export /\ (b.state # "running" \/ n' = MaxSteps)) => PrintT("GEN " \o ToJson([layers |-> ls, script |-> script']))
Start == ~a.st /\ Do(Emit(a, [ty |-> "http.response.start", status |-> 200, hdr |-> "x"]), "start")
Chunk == \E c \in {"a", "b", ""} : a.st /\ ~a.fin /\ Do(Emit(a, [ty |-> "http.response.body", body |-> c, more |-> TRUE]), c)
Final == \E c \in {"c", ""} : a.st /\ ~a.fin /\ Do(Emit(a, [ty |-> "http.response.body", body |-> c, more |-> FALSE]), "F" \o c)
Free(S) == \A i \in 1 .. Len(ls) : ls[i] \notin S
Start0 == ~a.st /\ Free({"header", "consume", "upper"}) /\ Do(Emit(a, [ty |-> "http.response.start", status |-> 200, hdr |-> ""]), "start0")
Path == a.st /\ ~a.fin /\ a.body = "" /\ Free({"upper", "consume"}) /\ Do(Emit(a, [ty |-> "http.response.pathsend", body |-> "/f", more |-> FALSE]), "P/f")
Debug == ~a.st /\ ~a.dbg /\ Free({"upper"}) /\ Do(Emit(a, [ty |-> "http.response.debug"]), "debug")
Bg == a.fin /\ Do(a, "bg")
Recv == Do(a, "recv")
Raise == Do([a EXCEPT !.state = "raised"], "raise")
Done == (a.fin \/ ~a.st) /\ Do([a EXCEPT !.state = "done"], "done")
Next == n < MaxSteps /\ a.state = "running" /\ Outer(ls, a).ended = FALSE
        /\ (Start \/ Start0 \/ Path \/ Debug \/ Chunk \/ Final \/ Bg \/ Recv \/ Raise \/ Done)
View == <<ls, a, n>>

V == Outer(ls, a)
W == Outer(ls, a')
Grows == V.st => (W.st /\ W.status = V.status /\ W.hdr = V.hdr /\ StartsWith(W.body, V.body) /\ (V.fin => W.fin /\ W.body = V.body))
GrowsAlways == [][Grows]_vars

Handles(k) == k \in {"answer", "replace", "catch", "early", "raise"}
(* without a layer that answers for it, an application that failed half way is cut short *)
NeverFaked == (a.state = "raised" /\ ~a.fin /\ \A i \in 1 .. Len(ls) : ~Handles(ls[i])) => ~V.fin
WellFormed == (V.fin => V.st) /\ (V.body # "" => V.st)
NothingLost == (V.ended /\ V.exc = "") => V.fin
ErrorsSurface == (a.state = "raised" /\ V.exc # "AppErr") =>
                    \E i \in 1 .. Len(ls) : Handles(ls[i])
TransparentStack == ((\A i \in 1 .. Len(ls) : ls[i] \in {"pass", "bg"}) /\ (a.st \/ a.state = "raised")) => V = AppView(a)
=============================================================================

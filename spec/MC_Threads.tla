------------------------------- MODULE MC_Threads -------------------------------
(* The loop and a small pool of workers: a plain step holds a worker from its  *)
(* beginning to its end, an asynchronous one holds nothing while it waits, and *)
(* the loop itself can always serve.                                           *)
EXTENDS Threads, Json
CONSTANTS Reqs, Workers, Full, Export
VARIABLES s, work, loop, hist
vars == <<s, work, loop, hist>>
B == BOOLEAN
P(ep, out, h, n, it, br, ts, f) == [reraise |-> FALSE, ep |-> ep, out |-> out, handler |-> h, items |-> n, iter |-> it, breakat |-> br, tasks |-> ts, failing |-> f]
Progs == {P(a, "value", TRUE, 0, TRUE, 0, ts, f) : a \in B, ts \in {<<>>, <<TRUE>>, <<TRUE, FALSE>>}, f \in {0, 1}}
         \cup {P(a, "raise", h, 0, TRUE, 0, <<>>, 0) : a \in B, h \in B}
         \cup {P(a, "stream", TRUE, n, it, br, <<>>, 0) : a \in (IF Full THEN B ELSE {TRUE}), n \in {0, 2}, it \in B, br \in {0, 1}}
Fine(p) == (p.failing <= Len(p.tasks)) /\ (p.breakat <= p.items)
Init == /\ s \in {InitState([reqs |-> q]) : q \in [1 .. Reqs -> {p \in Progs : Fine(p)}]} /\ work = {} /\ loop = "free" /\ hist = <<>>
Holds(e) == LET cs == Checks(s, e) IN \A i \in 1 .. Len(cs) : cs[i][2]
Step(r) == s.st[r][s.at[r] + 1]
Begin == \E r \in 1 .. Reqs :
  /\ r \notin s.busy /\ r \notin s.over /\ s.at[r] < Len(s.st[r])
  /\ (Step(r).plain => Cardinality(work) < Workers)
  /\ LET e == [t |-> "begin", r |-> r, w |-> Step(r).w, k |-> Step(r).k, loop |-> ~Step(r).plain, ctx |-> r, args |-> TRUE] IN Holds(e) /\ s' = Apply(s, e)
  /\ work' = (IF Step(r).plain THEN work \cup {r} ELSE work) /\ UNCHANGED <<loop, hist>>
End == \E r \in s.busy :
  /\ Holds([t |-> "end", r |-> r]) /\ s' = Apply(s, [t |-> "end", r |-> r]) /\ work' = work \ {r} /\ hist' = (IF Export THEN Append(hist, r) ELSE hist) /\ UNCHANGED loop
Over == \E r \in 1 .. Reqs : /\ r \notin s.busy /\ r \notin s.over /\ s.at[r] = Len(s.st[r])
  /\ LET e == [t |-> "over", r |-> r, exc |-> Fails(s.prog[r]), same |-> TRUE, body |-> Body(s.prog[r])] IN Holds(e) /\ s' = Apply(s, e)
  /\ UNCHANGED <<work, loop, hist>>
Fin == Cardinality(s.over) = Reqs /\ Export /\ PrintT("GEN " \o ToJson([reqs |-> s.prog, hist |-> hist])) /\ UNCHANGED vars
Next == Begin \/ End \/ Over \/ Fin
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ End \/ Over)
(* blocking code never has the loop *)
LoopFree == loop = "free" /\ Cardinality(work) <= Workers
(* a blocked step never keeps another request from its asynchronous steps *)
NoWait == \A r \in 1 .. Reqs : r \notin s.busy /\ r \notin s.over /\ s.at[r] < Len(s.st[r]) /\ ~Step(r).plain => ENABLED Begin
Finishes == <>(Cardinality(s.over) = Reqs)
=============================================================================

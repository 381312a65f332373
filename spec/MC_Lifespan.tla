------------------------------ MODULE MC_Lifespan ------------------------------
(* Every small lifespan history: numbers of steps, failure points, connections *)
(* and repeated lifespans; the history variable tells what really happened.    *)
EXTENDS Lifespan, Json
CONSTANTS MaxSteps, MaxCycles, MaxReqs, Export
VARIABLES s, hist, n
vars == <<s, hist, n>>
Ys == <<<<"log", "L">>, <<"k", "v">>>>
Fails(u, d) == {[failat |-> "", step |-> 0], [failat |-> "yield", step |-> 0], [failat |-> "value", step |-> 0], [failat |-> "wait", step |-> 0]} \cup {[failat |-> "up", step |-> i] : i \in 1 .. u} \cup {[failat |-> "down", step |-> i] : i \in 1 .. d}
Cycle(u, d) == {[failat |-> f.failat, step |-> f.step, swallow |-> FALSE, none |-> no, yields |-> IF no THEN <<>> ELSE Ys] : f \in Fails(u, d), no \in BOOLEAN}
Ok(cy) == ~(cy.none /\ cy.failat \in {"yield", "value"})
Init == /\ \E u, d \in 0 .. MaxSteps, k \in 1 .. MaxCycles : \E cs \in [1 .. k -> {x \in Cycle(u, d) : Ok(x)}] :
             s = InitState([up |-> u, down |-> d, cycles |-> cs])
        /\ hist = <<>> /\ n = 0
Holds(e) == LET cs == Checks(s, e) IN \A i \in 1 .. Len(cs) : cs[i][2]
Do(e) == Holds(e) /\ s' = Apply(s, e) /\ hist' = Append(hist, e)
Lift(e) == Do(e) /\ n' = n
Recv == ~(Cyc(s).failat = "wait" /\ s.ph = "serving") /\ \E t \in {"lifespan.startup", "lifespan.shutdown"} : Lift([t |-> "recv", type |-> t])
Step == \E w \in {"up", "down"}, i \in 1 .. MaxSteps : Lift([t |-> w, i |-> i])
Fin == s.busy /\ Lift([t |-> IF FailsAt(s, s.ph, s.i) THEN "fail" ELSE "fin"])
Lost == Cyc(s).failat = "wait" /\ Lift([t |-> "lost"])
Told == \E t \in {"lifespan.startup.complete", "lifespan.startup.failed", "lifespan.shutdown.complete", "lifespan.shutdown.failed"} : Lift([t |-> "told", type |-> t, text |-> TRUE])
Over == \E x \in {"", "E"} : Lift([t |-> "over", exc |-> x, same |-> TRUE])
Req == /\ n < MaxReqs /\ ~s.busy /\ s.ph = "serving"
       /\ n' = n + 1 /\ Do([t |-> "req", n |-> n + 1, own |-> TRUE, sees |-> StateOf(s), log |-> Append(s.log, n + 1)])
More == s.cyc < Len(s.c.cycles) /\ Lift([t |-> "next"])
End == s.ph = "over" /\ s.cyc = Len(s.c.cycles) /\ Export /\ PrintT("GEN " \o ToJson([cfg |-> s.c, hist |-> hist])) /\ UNCHANGED vars
Next == Lost \/ Recv \/ Step \/ Fin \/ Told \/ Over \/ Req \/ More \/ End
Count(P(_)) == Len(SelectSeq(hist, P))
Is(t, y) == Count(LAMBDA e : e.t = "told" /\ e.type = y)
(* in the current lifespan: exactly one startup report and at most one shutdown report, never both outcomes *)
Exclusive == LET L == s.cyc IN
  /\ Is("told", "lifespan.startup.complete") + Is("told", "lifespan.startup.failed") <= L
  /\ Is("told", "lifespan.shutdown.complete") + Is("told", "lifespan.shutdown.failed") <= Is("told", "lifespan.startup.complete")
OnceEach == \A i \in 1 .. MaxSteps : Count(LAMBDA e : e.t = "up" /\ e.i = i) <= s.cyc /\ Count(LAMBDA e : e.t = "down" /\ e.i = i) <= s.cyc
Reported == s.ph = "over" /\ s.cyc = Len(s.c.cycles) =>
  Is("told", "lifespan.startup.complete") + Is("told", "lifespan.startup.failed") = s.cyc
Stuck == ENABLED (Lost \/ Recv \/ Step \/ Fin \/ Told \/ Over \/ More) \/ (s.ph = "over" /\ s.cyc = Len(s.c.cycles))
=============================================================================

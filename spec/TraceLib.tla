------------------------------ MODULE TraceLib ------------------------------
(* Batch trace validation.  A trace recorded from the real code is a record   *)
(*   [cfg |-> configuration, ev |-> <<event, event, ...>>]                     *)
(* and a specification is given by three operators                             *)
(*   InitState(cfg)   the abstract state before the first event                *)
(*   Checks(s, e)     <<clause name, condition>> pairs: what must hold of e    *)
(*   Apply(s, e)      the abstract state after e                               *)
(* Every trace of the batch is one initial state; an event is a step only if   *)
(* all its clauses hold, so a trace is accepted iff its last event is reached. *)
(* Rejections are printed with the names of the clauses that failed; the       *)
(* harness re-derives acceptance from the number of distinct states.           *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS InitState(_), Checks(_, _), Apply(_, _)

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, s
vars == <<tid, l, s>>

TInit == /\ tid \in 1 .. Len(Traces)
         /\ l = 1
         /\ s = InitState(Traces[tid].cfg)

Failing(e) == SelectSeq(Checks(s, e), LAMBDA c : ~c[2])

TNext == /\ l <= Len(Traces[tid].ev)
         (* quantifiers over singletons: their bodies see values, evaluated once *)
         /\ \E e \in {Traces[tid].ev[l]} :
            \E bad \in {Failing(e)} :
                IF bad = <<>>
                THEN /\ s' = Apply(s, e)
                     /\ l' = l + 1
                     /\ tid' = tid
                ELSE /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(l) \o " "
                               \o ToJson([i \in 1 .. Len(bad) |-> bad[i][1]]))
                     /\ FALSE
                     /\ UNCHANGED vars
=============================================================================

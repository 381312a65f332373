---- MODULE Trace_Auth ----
(* GENERATED by mktrace.sh from TraceLib.tla for module Auth *)
EXTENDS Auth, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, s
vars == <<tid, l, s>>

TInit == /\ tid \in 1 .. Len(Traces)
         /\ l = 1
         /\ s = InitState(Traces[tid].cfg)

Failing(e) == SelectSeq(Checks(s, e), LAMBDA c : ~c[2])

TNext == /\ l <= Len(Traces[tid].ev)
         (* quantifiers over singletons: their bodies see values, evaluated once *)
         /\ \E e \in {Traces[tid].ev[l]} :
            \E bad \in {Failing(e)} :
                IF bad = <<>>
                THEN /\ s' = Apply(s, e)
                     /\ l' = l + 1
                     /\ tid' = tid
                ELSE /\ PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(l) \o " "
                               \o ToJson([i \in 1 .. Len(bad) |-> bad[i][1]]))
                     /\ FALSE
                     /\ UNCHANGED vars
=============================================================================

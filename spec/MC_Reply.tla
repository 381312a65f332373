------------------------------- MODULE MC_Reply -------------------------------
(* Header derivation over all combinations of status, body, media type and     *)
(* application headers, followed by every short sequence of header operations. *)
EXTENDS Reply, Json
CONSTANTS Depth, Export
VARIABLES s, n, bad
vars == <<s, n, bad>>
Statuses == {100, 199, 200, 204, 304, 404}
Hdrs == {<<>>, <<<<"X-A", "1">>>>, <<<<"Content-Length", "9">>>>, <<<<"content-type", "a/b">>, <<"x-a", "1">>>>, <<<<"x-a", "1">>, <<"X-A", "2">>>>}
Medias == {"None", "text/plain", "text/x; charset=ascii", "Text/X", "application/json"}
Cfg(k, st, b, m, h) == [kind |-> k, status |-> st, hex |-> b, media |-> m, charset |-> "utf-8", hdrs |-> h, redirect |-> FALSE,
                        method |-> "GET", name |-> "None", refused |-> "", prefix |-> "", json |-> <<>>]
Ops == {[t |-> "op", op |-> o, k |-> k, v |-> "z"] : o \in {"set", "del", "append", "setdefault"}, k \in {"X-A", "x-b", "Content-Type"}}
Init == /\ \E k \in {"known", "stream"}, st \in Statuses, b \in {"", "00", "ffff"}, m \in Medias, h \in Hdrs :
              s = Apply(InitState(Cfg(k, st, b, m, h)), [t |-> "new", exc |-> ""])
        /\ n = 0 /\ bad = FALSE
        /\ (Export => PrintT("GEN " \o ToJson([kind |-> s.cfg.kind, status |-> s.cfg.status, hex |-> s.cfg.hex, media |-> s.cfg.media, hdrs |-> s.cfg.hdrs])))
Next == /\ n < Depth /\ n' = n + 1
        /\ \E o \in Ops :
             /\ s' = Apply(s, o)
             /\ bad' = (bad \/ ~(CASE o.op = "set" -> HAll(s'.h, o.k) = <<"z">>
                                   [] o.op = "del" -> HAll(s'.h, o.k) = <<>>
                                   [] o.op = "append" -> HAll(s'.h, o.k) = HAll(s.h, o.k) \o <<"z">>
                                   [] o.op = "setdefault" -> HGet(s'.h, o.k, "") = HGet(s.h, o.k, "z"))
                             \/ ~(HDel(s'.h, o.k) = HDel(s.h, o.k)))
OpsLawful == ~bad
LengthTruthful == (n = 0 /\ ~Has(HMake(s.cfg.hdrs), "content-length")) =>
                    GetAll(s.h, "content-length") = IF s.cfg.kind = "known" /\ ~NoBody(s.cfg.status) THEN <<Nat2Str(BodyLen(s.cfg))>> ELSE <<>>
TypeKept == (n = 0 /\ Has(HMake(s.cfg.hdrs), "content-type")) => GetAll(s.h, "content-type") = GetAll(HMake(s.cfg.hdrs), "content-type")
CharsetOnce == n = 0 => \A i \in 1 .. Len(s.h) : Len(Split(s.h[i][2], "charset=")) <= 2
AppOrder == n = 0 => SubSeq(s.h, 1, Len(s.cfg.hdrs)) = HMake(s.cfg.hdrs)
=============================================================================

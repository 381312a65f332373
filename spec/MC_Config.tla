------------------------------- MODULE MC_Config -------------------------------
(* All short histories over two keys, a prefix and a file.                     *)
EXTENDS Config, Json
CONSTANTS MaxOps, Export
VARIABLES s, hist, seen
vars == <<s, hist, seen>>
Ks == {"A", "PA"}
Vs == {"1", "x"}
Files == {<<>>, <<"A=0", "A = 'true'">>, <<"#A=1", "PA=\"x\"">>}
C(env, f, p) == [env |-> env, confs |-> <<[prefix |-> "", lines |-> f, shares |-> TRUE], [prefix |-> "P", lines |-> f, shares |-> p]>>, casts |-> <<>>]
Init == /\ \E env \in {<<>>, <<<<"A", "1">>>>, <<<<"PA", "TRUE">>>>}, f \in Files, p \in BOOLEAN : s = InitState(C(env, f, p))
        /\ hist = <<>> /\ seen = {}
Log(e) == s' = Apply(s, e) /\ hist' = Append(hist, e)
Look == \E i \in {1, 2}, ca \in {"", "bool"}, dk \in {"none", "null", "val"} :
          LET e == [t |-> "look", conf |-> i, key |-> "A", cast |-> ca, dk |-> dk, d |-> "false"] IN Log(e) /\ seen' = seen
Set == \E k \in Ks, v \in Vs : Log([t |-> "set", key |-> k, val |-> v]) /\ seen' = seen
Del == \E k \in Ks : Log([t |-> "del", key |-> k]) /\ seen' = seen
(* seen: what reading through the environment has answered *)
Read == \E k \in Ks, h \in {"item", "get", "in"} : Log([t |-> "read", key |-> k, how |-> h]) /\ seen' = seen \cup {<<k, IF In(s, k) THEN Val(s, k) ELSE "-">>}
Behind == \E k \in Ks : Log([t |-> "behind", key |-> k, val |-> "0", gone |-> FALSE]) /\ seen' = {x \in seen : x[1] # k}
Next == Len(hist) < MaxOps /\ (Look \/ Set \/ Del \/ Read \/ Behind) /\ (Export /\ Len(hist') = MaxOps => PrintT("GEN " \o ToJson([cfg |-> s.c, hist |-> hist'])))
(* a key once read keeps its value, unless changed behind the environment's back *)
Frozen == \A x, y \in seen : x[1] = y[1] => x = y
LastFirst == \A x \in seen : x[2] = (IF In(s, x[1]) THEN Val(s, x[1]) ELSE "-")
(* the layers *)
E0(i, dk) == [t |-> "look", conf |-> i, key |-> "A", cast |-> "", dk |-> dk, d |-> "dflt"]
Layers == \A i \in {1, 2}, dk \in {"none", "null", "val"} :
  LET k == FullKey(s, E0(i, dk)) IN
  /\ (In(s, k) => Found(s, E0(i, dk)) = "s:" \o Val(s, k))
  /\ (~In(s, k) /\ Found(s, E0(i, dk)) = "s:dflt" => dk = "val" /\ ~Has(s.files[i], k))
  /\ (Found(s, E0(i, dk)) = "KeyError" <=> ~In(s, k) /\ ~Has(s.files[i], k) /\ dk = "none")
=============================================================================

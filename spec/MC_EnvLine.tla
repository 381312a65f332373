------------------------------- MODULE MC_EnvLine -------------------------------
(* All short lines of a settings file, character by character: a machine that  *)
(* reads the line once, against Config!Line.                                   *)
EXTENDS Config, Json
CONSTANTS MaxLen, Export
VARIABLES q, pos, m
vars == <<q, pos, m>>
Al == {"a", "=", "#", " ", "'", "\""}
Text(w) == Fold(LAMBDA a, i : a \o w[i], "", [i \in 1 .. Len(w) |-> i])
Init == /\ q \in UNION {[1 .. n -> Al] : n \in 0 .. MaxLen} /\ pos = 1
        /\ m = [st |-> "start", key |-> "", kgap |-> "", val |-> "", tail |-> ""]
        /\ (Export => PrintT("GEN " \o ToJson([q |-> q])))
(* gap, tail: characters that only count if something else follows *)
Step(c) ==
  CASE m.st = "start" -> IF c = " " THEN m ELSE IF c = "#" THEN [m EXCEPT !.st = "none"] ELSE IF c = "=" THEN [m EXCEPT !.st = "lead"] ELSE [m EXCEPT !.st = "key", !.key = c]
    [] m.st = "key" -> IF c = "=" THEN [m EXCEPT !.st = "lead"] ELSE IF c = " " THEN [m EXCEPT !.kgap = @ \o c] ELSE [m EXCEPT !.key = @ \o m.kgap \o c, !.kgap = ""]
    [] m.st = "lead" -> IF c = " " THEN m ELSE IF c \in Quotes THEN [m EXCEPT !.st = "quote"] ELSE [m EXCEPT !.st = "val", !.val = c]
    [] m.st = "quote" -> IF c \in Quotes THEN m ELSE [m EXCEPT !.st = "inq", !.tail = c]
    [] m.st = "inq" -> [m EXCEPT !.tail = @ \o c]
    [] m.st = "val" -> [m EXCEPT !.tail = @ \o c]
    [] OTHER -> m
Read == pos <= Len(q) /\ ~Export /\ pos' = pos + 1 /\ q' = q /\ m' = Step(q[pos])
Next == Read
(* what trails: spaces, and within them quotes *)
Strip(t) == Unquote(RTrim(t))
Result == IF m.st \in {"start", "none", "key"} THEN <<>> ELSE <<m.key, IF m.st = "inq" THEN Unquote(RTrim(m.tail)) ELSE IF m.st = "val" THEN Strip(m.val \o m.tail) ELSE "">>
Same == pos > Len(q) => Result = Line(Text(q))
=============================================================================

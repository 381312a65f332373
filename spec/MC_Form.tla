-------------------------------- MODULE MC_Form --------------------------------
(* The parser as a machine: parts arrive piece by piece (a piece may be the    *)
(* beginning of a part, some of its content or its end), the client may leave  *)
(* or the body end in between, and every outcome has to satisfy Form!Checks.   *)
EXTENDS Form, Json
CONSTANTS MaxParts, Export
VARIABLES c, at, got, items, open, out
vars == <<c, at, got, items, open, out>>
P(f, nm, n) == [file |-> f, named |-> nm, name |-> "n", fn |-> IF f THEN "f" ELSE "", ct |-> "", heads |-> <<>>, size |-> n, len |-> n, body |-> ToString(n)]
Parts == {P(f, TRUE, n) : f \in BOOLEAN, n \in 0 .. 2} \cup {P(FALSE, FALSE, 1)}
Limits == [files : {99, 0, 1}, fields : {99, 0, 1}, size : {99, 1}]
Init == /\ \E k \in 0 .. MaxParts : \E ps \in [1 .. k -> Parts], l \in Limits, en \in {"full", "gone", "cut"} :
             /\ c = [multipart |-> TRUE, whole |-> TRUE, parts |-> ps, max |-> l, end |-> en]
             /\ (Export => PrintT("GEN " \o ToJson(c)))
        /\ at = 0 /\ got = 0 /\ items = <<>> /\ open = {} /\ out = "no"
Fail(o) == out' = o /\ open' = {} /\ UNCHANGED <<c, at, got, items>>
Part == c.parts[at]
Busy == out = "no" /\ ~Export
Header == /\ Busy /\ at < Len(c.parts) /\ (at > 0 => got = 99)
        /\ LET q == c.parts[at + 1] IN
           IF \/ ~q.named
              \/ q.file /\ Over(c.max.files, Cardinality(open) + 1)
              \/ ~q.file /\ Over(c.max.fields, Len(SelectSeq(items, LAMBDA x : ~x.file)) + 1)
           THEN Fail("refused")
           ELSE at' = at + 1 /\ got' = 0 /\ open' = (IF q.file THEN open \cup {at + 1} ELSE open) /\ UNCHANGED <<c, items, out>>
Data == /\ Busy /\ at > 0 /\ got < Part.size
        /\ IF ~Part.file /\ Over(c.max.size, got + 1) THEN Fail("refused") ELSE got' = got + 1 /\ UNCHANGED <<c, at, items, open, out>>
Close == Busy /\ at > 0 /\ got # 99 /\ got = Part.size /\ got' = 99 /\ items' = Append(items, Item(Part)) /\ UNCHANGED <<c, at, open, out>>
Done == /\ Busy /\ \/ c.end = "full" /\ at = Len(c.parts) /\ (at > 0 => got = 99)
                   \/ c.end = "cut"
        /\ out' = "ok" /\ open' = (IF at > 0 /\ got # 99 THEN open \ {at} ELSE open) /\ UNCHANGED <<c, at, got, items>>
Gone == Busy /\ c.end = "gone" /\ Fail("gone")
Next == Header \/ Data \/ Close \/ Done \/ Gone
Ev == [t |-> "parsed", outcome |-> out, items |-> IF out = "ok" THEN items ELSE <<>>, open |-> Cardinality(open), files |-> Len(SelectSeq(items, LAMBDA x : x.file))]
Agrees == out # "no" => LET cs == Checks([c |-> c, first |-> <<>>], Ev) IN \A i \in 1 .. Len(cs) : cs[i][2]
=============================================================================

-------------------------------- MODULE MC_Upload --------------------------------
(* The file as it is built: a buffer of at most max bytes, moved to disk by the  *)
(* write that goes beyond it (never, if max = 0); the wrapper decides before each *)
(* operation whether a worker thread is needed.                                  *)
EXTENDS Upload, Integers, Json
CONSTANTS MaxOps, Export
VARIABLES s, max, data, pos, size, disk, ev, hist
vars == <<s, max, data, pos, size, disk, ev, hist>>
Datas == {"", "a", "bc", "def"}
E0 == [t |-> "none", f |-> 1, onloop |-> FALSE, exc |-> ""]
Init == /\ max \in {0, 1, 3} /\ data = "" /\ pos = 0 /\ size = 0 /\ disk = FALSE /\ hist = <<>> /\ ev = E0
        /\ s = InitState([zero |-> "0", files |-> <<[content |-> "", pos |-> 0, sized |-> TRUE, name |-> "n", ctype |-> "t"]>>])
Pad(c, n) == IF Len(c) >= n THEN c ELSE c \o Concat([i \in 1 .. n - Len(c) |-> "0"])
Log(h, e) == hist' = Append(hist, h) /\ ev' = e /\ s' = Apply(s, e) /\ max' = max
Ok == Len(hist) < MaxOps /\ s.f[1].open
Write == Ok /\ \E d \in Datas :
  LET thread == disk \/ (max > 0 /\ pos + Len(d) > max)
      new == IF d = "" THEN data ELSE LET p == Pad(data, pos) IN SubSeq(p, 1, pos) \o d \o (IF pos + Len(d) < Len(p) THEN SubSeq(p, pos + Len(d) + 1, Len(p)) ELSE "")
      rolls == max > 0 /\ pos + Len(d) > max IN
  /\ data' = new /\ pos' = pos + Len(d) /\ disk' = (disk \/ rolls) /\ size' = (IF d # "" /\ size < pos + Len(d) THEN pos + Len(d) ELSE size)
  /\ Log([t |-> "write", data |-> d], [t |-> "write", f |-> 1, data |-> d, exc |-> "", size |-> ToString(size'), onloop |-> ~thread /\ (disk \/ rolls)])
Read == Ok /\ \E n \in {0 - 1, 1, 2} :
  LET k == IF pos >= Len(data) THEN 0 ELSE IF n < 0 \/ n > Len(data) - pos THEN Len(data) - pos ELSE n IN
  /\ pos' = pos + k /\ UNCHANGED <<data, size, disk>>
  /\ Log([t |-> "read", n |-> n], [t |-> "read", f |-> 1, n |-> n, got |-> IF k = 0 THEN "" ELSE SubSeq(data, pos + 1, pos + k), exc |-> "", onloop |-> FALSE])
Seek == Ok /\ \E p \in {0, 1, 4} : pos' = p /\ UNCHANGED <<data, size, disk>> /\ Log([t |-> "seek", to |-> p], [t |-> "seek", f |-> 1, to |-> p, exc |-> "", onloop |-> FALSE])
Next == Write \/ Read \/ Seek
Holds == [][LET cs == Checks(s, ev') IN \A i \in 1 .. Len(cs) : cs[i][2]]_vars
Same == s.f[1].c = data /\ s.f[1].pos = pos
ExportHist == (Export /\ Len(hist) = MaxOps) => PrintT("GEN " \o ToJson([max |-> max, ops |-> hist]))
=============================================================================

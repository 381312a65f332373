----------------------------- MODULE MC_FileRange -----------------------------
(* All short range lists over a small file: the coalescing the implementation  *)
(* performs (Merge, transcribed) selects exactly the requested bytes.          *)
EXTENDS FileRange, Json
CONSTANTS Size, Export
VARIABLES q, txt
vars == <<q, txt>>
Specs == {[k |-> "both", a |-> a, b |-> b] : a \in 0 .. Size, b \in 0 .. Size} \cup {[k |-> "from", a |-> a, b |-> 0] : a \in 0 .. Size}
         \cup {[k |-> "last", a |-> 0, b |-> b] : b \in 0 .. Size + 1}
Text(x) == CASE x.k = "both" -> ToString(x.a) \o "-" \o ToString(x.b) [] x.k = "from" -> ToString(x.a) \o "-" [] OTHER -> "-" \o ToString(x.b)
Init == q = <<>> /\ txt = "bytes="
Next == /\ Len(q) < 3
        /\ \E x \in Specs : /\ q' = Append(q, x)
                            /\ txt' = txt \o (IF q = <<>> THEN "" ELSE ",") \o Text(x)
                            /\ (Export => PrintT("GEN " \o ToJson([range |-> txt', n |-> Size])))
Good == Len(q) > 0 /\ Verdict(txt, Size) = "206"
Ivs == [i \in 1 .. Len(q) |-> <<Lo(q[i], Size), Hi(q[i], Size)>>]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Place(_, _, _)
Place(res, r, p) ==
  IF p > Len(res) THEN Append(res, r)
  ELSE IF r[1] > res[p][2] THEN Place(res, r, p + 1)
  ELSE IF r[2] < res[p][1] THEN SubSeq(res, 1, p - 1) \o <<r>> \o SubSeq(res, p, Len(res))
  ELSE [res EXCEPT ![p] = <<Min(r[1], @[1]), Max(r[2], @[2])>>]
RECURSIVE Merge(_, _)
Merge(res, rest) == IF rest = <<>> THEN res ELSE Merge(Place(res, Head(rest), 1), Tail(rest))
Union(ivs) == UNION {ivs[i][1] .. (ivs[i][2] - 1) : i \in 1 .. Len(ivs)}
ParsesBack == Len(q) > 0 => Elems(txt) = q
MergeExact == Good => (Union(Merge(<<>>, Ivs)) = Wanted(txt, Size) /\ Wanted(txt, Size) \subseteq 0 .. (Size - 1) /\ Wanted(txt, Size) # {})
=============================================================================

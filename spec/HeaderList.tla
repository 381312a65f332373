------------------------------ MODULE HeaderList ------------------------------
(* An ordered list of <<name, value>> pairs as a case-insensitive multi-map.   *)
EXTENDS Str

HAll(l, k) == GetAll(l, Lower(k))
HHas(l, k) == Has(l, Lower(k))
HGet(l, k, d) == Get(l, Lower(k), d)
HAppend(l, k, v) == Append(l, <<Lower(k), v>>)
HDel(l, k) == The({SelectSeq(l, LAMBDA p : p[1] # n) : n \in {Lower(k)}})
(* one entry for the key, at the place of its first entry *)
HSet(l, k, v) ==
  LET n == Lower(k)
      i == FirstIdx(l, LAMBDA p : p[1] = n)
  IN IF i = 0 THEN Append(l, <<n, v>>)
     ELSE SubSeq(l, 1, i - 1) \o <<<<n, v>>>> \o SelectSeq(SubSeq(l, i + 1, Len(l)), LAMBDA p : p[1] # n)
HSetDefault(l, k, v) == IF HHas(l, k) THEN l ELSE HAppend(l, k, v)
RECURSIVE HUpdate(_, _)
HUpdate(l, ps) == IF ps = <<>> THEN l ELSE HUpdate(HSet(l, ps[1][1], ps[1][2]), Tail(ps))
(* a mapping turned into a list *)
HMake(ps) == [i \in 1 .. Len(ps) |-> <<Lower(ps[i][1]), ps[i][2]>>]
=============================================================================

--------------------------- MODULE MC_BodyThrough ---------------------------
(* All stacks of reading behaviours and all feeds: composing the layers hands  *)
(* on the effective body, once, complete exactly when it is, with the          *)
(* disconnect after it and nothing held back.                                  *)
EXTENDS BodyThrough, Json
CONSTANTS MaxLayers, MaxFeed, Export
Kinds == {"pass", "body", "json", "stream", "poll"}
VARIABLES ls, f
vars == <<ls, f>>
Seqs(S, k) == UNION {[1 .. i -> S] : i \in 0 .. k}
Init == ls \in Seqs(Kinds, MaxLayers) /\ f = <<>>
Push == \E m \in {Req("a", TRUE), Req("b", FALSE), Req("", TRUE), Req("", FALSE), Gone} :
          /\ Len(f) < MaxFeed
          /\ f # <<>> => (f[Len(f)].ty # "http.disconnect" /\ (Complete(f) => m.ty = "http.disconnect"))
          /\ f' = Append(f, m) /\ ls' = ls
          /\ Export => PrintT("GEN " \o ToJson([layers |-> ls, feed |-> f']))
Next == Push
Out == Through(ls, f)
SameBody == (Complete(f) \/ ~Reads(ls)) => Body(Out) = Effective(ls, f)
OneEnd == Complete(f) <=> Complete(Out)
AtMostOneEnd == Len(SelectSeq(Out, LAMBDA m : m.ty = "http.request" /\ ~m.more)) =< 1
DisconnectLast == \A i \in 1 .. Len(Out) : Out[i].ty = "http.disconnect" => i = Len(Out)
DisconnectKept == Rest(Out) = Rest(f)
NothingEarly == (Reads(ls) /\ ~Complete(f)) => Body(Out) = ""
=============================================================================

------------------------------- MODULE MC_FormCut -------------------------------
(* Finding the end of a part: reading the body one character after another and *)
(* keeping only how much of the delimiter has been seen gives the same content *)
(* as looking for the delimiter in the whole body, wherever a cut may fall.    *)
(* Contents are all strings over the delimiter's own characters and one other. *)
EXTENDS Str, Json
CONSTANTS MaxLen, Export
VARIABLES q, pos, m, out, end
vars == <<q, pos, m, out, end>>
D == <<"r", "n", "-", "-", "b">>
Alphabet == {"r", "n", "-", "b", "x"}
IsAt(body, i) == i + Len(D) - 1 <= Len(body) /\ \A j \in 1 .. Len(D) : body[i + j - 1] = D[j]
Body == q \o D \o <<"-", "-">>
Init == /\ q \in {w \in UNION {[1 .. n -> Alphabet] : n \in 0 .. MaxLen} : \A i \in 1 .. Len(w) : ~IsAt(w, i)}
        /\ pos = 1 /\ m = 0 /\ out = <<>> /\ end = FALSE
        /\ (Export => PrintT("GEN " \o ToJson([q |-> q])))
Read == /\ ~end /\ ~Export /\ pos <= Len(Body) /\ pos' = pos + 1 /\ q' = q
        /\ LET ch == Body[pos] IN
           IF ch = D[m + 1] THEN m' = m + 1 /\ out' = out /\ end' = (m + 1 = Len(D))
           ELSE /\ end' = FALSE
                /\ IF ch = D[1] THEN m' = 1 /\ out' = out \o SubSeq(D, 1, m)
                   ELSE m' = 0 /\ out' = out \o SubSeq(D, 1, m) \o <<ch>>
Next == Read
Declared == CHOOSE i \in 1 .. Len(Body) : IsAt(Body, i) /\ \A j \in 1 .. i - 1 : ~IsAt(Body, j)
Same == end => out = SubSeq(Body, 1, Declared - 1) /\ out = q
NothingLost == out \o SubSeq(D, 1, m) = SubSeq(Body, 1, pos - 1)
=============================================================================

-------------------------------- MODULE Str --------------------------------
(* Strings as sequences of characters (TLC evaluates Len, SubSeq and \o on    *)
(* strings), and the small amount of text processing the specifications need. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Fold

(* No recursion: TLC passes the arguments of recursive operators by name, and   *)
(* evaluates them again wherever they are used.  Folds (of the CommunityModules) *)
(* pass values.  The({Op(x) : x \in {v}}) is Op(v) with v evaluated once.        *)
The(S) == CHOOSE x \in S : TRUE
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Greatest(S) == CHOOSE x \in S : \A y \in S : x >= y
Upto1(n) == [i \in 1 .. n |-> i]

At(t, i) == SubSeq(t, i, i)
StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
EndsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, Len(t) - Len(p) + 1, Len(t)) = p
From(t, i) == IF i > Len(t) THEN "" ELSE SubSeq(t, i, Len(t))
Upto(t, i) == IF i < 1 THEN "" ELSE SubSeq(t, 1, i)

Chars(t) == {At(t, i) : i \in 1 .. Len(t)}

(* position of the first occurrence of p in t at or after i, 0 if none *)
Places(t, p) == {i \in 1 .. Len(t) - Len(p) + 1 : SubSeq(t, i, i + Len(p) - 1) = p}
FindFrom(t, p, i) == The({IF S = {} THEN 0 ELSE Least(S) : S \in {{j \in Places(t, p) : j >= i}}})
Find(t, p) == FindFrom(t, p, 1)
Contains(t, p) == Find(t, p) # 0

(* and of the last *)
RFind(t, p) == The({IF S = {} THEN 0 ELSE Greatest(S) : S \in {Places(t, p)}})

(* t split at every occurrence of the non-empty separator p *)
SplitV(t, p) ==
  The({Append(r.out, From(t, r.from)) :
       r \in {Fold(LAMBDA a, i : IF i >= a.from /\ i + Len(p) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(p) - 1) = p
                                     THEN [from |-> i + Len(p), out |-> Append(a.out, SubSeq(t, a.from, i - 1))] ELSE a,
                      [from |-> 1, out |-> <<>>], Upto1(Len(t)))}})
Split(t, p) == The({SplitV(x, p) : x \in {t}})

JoinV(ss, p) == IF ss = <<>> THEN "" ELSE Fold(LAMBDA a, x : a \o p \o x, ss[1], Tail(ss))
Join(ss, p) == The({JoinV(x, p) : x \in {ss}})
Concat(ss) == Join(ss, "")

Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lowers == "abcdefghijklmnopqrstuvwxyz"
Digits == "0123456789"
(* written out: a function constructor would be evaluated anew at every use *)
LowerMap == "A" :> "a" @@ "B" :> "b" @@ "C" :> "c" @@ "D" :> "d" @@ "E" :> "e" @@ "F" :> "f" @@ "G" :> "g" @@ "H" :> "h" @@ "I" :> "i" @@ "J" :> "j" @@ "K" :> "k" @@ "L" :> "l" @@ "M" :> "m"
            @@ "N" :> "n" @@ "O" :> "o" @@ "P" :> "p" @@ "Q" :> "q" @@ "R" :> "r" @@ "S" :> "s" @@ "T" :> "t" @@ "U" :> "u" @@ "V" :> "v" @@ "W" :> "w" @@ "X" :> "x" @@ "Y" :> "y" @@ "Z" :> "z"
UpperMap == "a" :> "A" @@ "b" :> "B" @@ "c" :> "C" @@ "d" :> "D" @@ "e" :> "E" @@ "f" :> "F" @@ "g" :> "G" @@ "h" :> "H" @@ "i" :> "I" @@ "j" :> "J" @@ "k" :> "K" @@ "l" :> "L" @@ "m" :> "M"
            @@ "n" :> "N" @@ "o" :> "O" @@ "p" :> "P" @@ "q" :> "Q" @@ "r" :> "R" @@ "s" :> "S" @@ "t" :> "T" @@ "u" :> "U" @@ "v" :> "V" @@ "w" :> "W" @@ "x" :> "X" @@ "y" :> "Y" @@ "z" :> "Z"

LowerC(c) == IF c \in DOMAIN LowerMap THEN LowerMap[c] ELSE c
UpperC(c) == IF c \in DOMAIN UpperMap THEN UpperMap[c] ELSE c
Lower(t) == The({Fold(LAMBDA a, i : a \o LowerC(At(x, i)), "", Upto1(Len(x))) : x \in {t}})
Upper(t) == The({Fold(LAMBDA a, i : a \o UpperC(At(x, i)), "", Upto1(Len(x))) : x \in {t}})

IsSpace(c) == c \in {" ", "\t", "\n", "\r", "\f"}
Solid(t) == {i \in 1 .. Len(t) : ~IsSpace(At(t, i))}
Between(t, S, l, r) == IF S = {} THEN "" ELSE SubSeq(t, IF l THEN Least(S) ELSE 1, IF r THEN Greatest(S) ELSE Len(t))
TrimV(t, l, r) == The({Between(t, S, l, r) : S \in {Solid(t)}})
LTrim(t) == The({TrimV(x, TRUE, FALSE) : x \in {t}})
RTrim(t) == The({TrimV(x, FALSE, TRUE) : x \in {t}})
Trim(t) == The({TrimV(x, TRUE, TRUE) : x \in {t}})

IsDigits(t) == t # "" /\ Chars(t) \subseteq Chars(Digits)
ParseV(t) == Fold(LAMBDA a, i : 10 * a + (Find(Digits, At(t, i)) - 1), 0, Upto1(Len(t)))
ParseNat(t) == The({ParseV(x) : x \in {t}})

(* sequences *)
SeqSet(q) == {q[i] : i \in 1 .. Len(q)}
Filter(q, T(_)) == SelectSeq(q, T)
FlatSeq(qq) == Fold(LAMBDA a, x : a \o x, <<>>, qq)
SumSeq(q) == Fold(LAMBDA a, x : a + x, 0, q)
Last(q) == q[Len(q)]
(* first index of q satisfying T, 0 if none *)
FirstIdx(q, T(_)) == The({IF S = {} THEN 0 ELSE Least(S) : S \in {{i \in 1 .. Len(q) : T(q[i])}}})

(* association lists: sequences of <<key, value>> *)
Keys(q) == {q[i][1] : i \in 1 .. Len(q)}
ValuesOf(m) == [i \in 1 .. Len(m) |-> m[i][2]]
GetAll(q, k) == The({ValuesOf(SelectSeq(q, LAMBDA p : p[1] = x)) : x \in {k}})
Has(q, k) == k \in Keys(q)
Get(q, k, d) == LET m == GetAll(q, k) IN IF m = <<>> THEN d ELSE m[1]
=============================================================================

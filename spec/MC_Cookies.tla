------------------------------- MODULE MC_Cookies -------------------------------
(* All values over an alphabet of the characters that matter, and all histories of *)
(* cookies set, deleted and sent back by a browser that sees the headers only:      *)
(* what this writer of headers produces is what the specification allows, values    *)
(* survive, and a browser's cookies are those the history asked for.  Export: the   *)
(* histories, and all Cookie headers over the same alphabet.                        *)
EXTENDS Cookies, Json
CONSTANTS Alphabet, MaxLen, Names, Values, Paths, Domains, Steps, Export
VARIABLES v, st, ok, n, bjar, hist
vars == <<v, st, ok, n, bjar, hist>>
Texts(k) == {Concat(q) : q \in UNION {[1 .. i -> Alphabet] : i \in 0 .. k}}
Plain == Chars(Uppers \o Lowers \o Digits \o "!#$%&'*+-.^_`|~:")
Code(c) == IF c = ";" THEN "\\073" ELSE IF c = "," THEN "\\054" ELSE IF c \in {"\"", "\\"} THEN "\\" \o c ELSE c
Quote(t) == IF t # "" /\ Chars(t) \subseteq Plain THEN t ELSE "\"" \o Concat([i \in 1 .. Len(t) |-> Code(At(t, i))]) \o "\""
Render(a) == a.name \o "=" \o Quote(a.value) \o (IF a.del THEN "; expires=now; Max-Age=0" ELSE "") \o (IF a.domain # "None" THEN "; Domain=" \o a.domain ELSE "")
               \o (IF a.path # "None" THEN "; Path=" \o a.path ELSE "") \o (IF a.secure THEN "; Secure" ELSE "") \o "; SameSite=lax"
(* the browser *)
Att(c, k) == LET x == GetAll(c.attrs, k) IN IF x = <<>> THEN "None" ELSE x[1]
Obey(jar, h) == LET c == ParseSet(h)
                    k == <<c.name, Att(c, "domain"), Att(c, "path")>>
                    rest == SelectSeq(jar, LAMBDA x : x[1] # k)
                IN IF Att(c, "max-age") = "0" THEN rest ELSE Append(rest, <<k, c.name \o "=" \o c.raw>>)
CookieHeader(jar) == Join([i \in 1 .. Len(jar) |-> jar[i][2]], "; ")

Good(q) == \A i \in 1 .. Len(q) : q[i][2]
Init == /\ v \in (IF Steps = 0 THEN Texts(MaxLen) ELSE {""})
        /\ st = InitState([k |-> "x"]) /\ ok = TRUE /\ n = 0 /\ bjar = <<>> /\ hist = <<>>
        /\ ((Export /\ Steps = 0) => PrintT("GEN " \o ToJson([kind |-> "text", text |-> v])))
Step(e) == st' = Apply(st, e) /\ ok' = Good(Checks(st, e))
Args == [name : Names, value : Values, path : Paths, domain : Domains, secure : {FALSE}, httponly : {FALSE}, samesite : {"lax"}, maxage : {"None"}, expires : {"None"},
         due : {0}, gone : {FALSE}, past : {FALSE}, del : BOOLEAN]
Set(a) == /\ n < Steps /\ (a.del => a.value = "")
          /\ \E h \in {Render(a)} : /\ Step([t |-> "set", a |-> a, hdrs |-> Append(st.hdrs, <<"set-cookie", h>>), dated |-> TRUE, gap |-> 0, date |-> ""])
                                    /\ bjar' = Obey(bjar, h)
          /\ n' = n + 1 /\ hist' = IF Export THEN Append(hist, [name |-> a.name, value |-> a.value, path |-> a.path, domain |-> a.domain, del |-> a.del]) ELSE hist
          /\ ((Export /\ n' = Steps) => PrintT("GEN " \o ToJson([kind |-> "history", ops |-> hist'])))
          /\ UNCHANGED v
Next == \E a \in Args : Set(a)
Spec == Init /\ [][Next]_vars
Sound == ok
ValueSurvives == /\ Unquote(Quote(v)) = v
                 /\ Len(Split(Quote(v), ";")) = 1
                 /\ Cookies("k=" \o Quote(v) \o "; z=1") = << <<"k", v>>, <<"z", "1">> >>
Parses == \A q \in {Cookies(v)} : (\A i \in 1 .. Len(q) : ~Contains(q[i][1], ";") /\ ~Contains(q[i][1], "=") /\ Trim(q[i][1]) = q[i][1]) /\ Cookies(v \o ";") = q /\ Cookies(";" \o v) = q
            /\ (Len(q) = 0 <=> Chars(v) \subseteq {";", " ", "="} /\ \A i \in 1 .. Len(Split(v, ";")) : Trim(Split(v, ";")[i]) \in {"", "="})
LastShown == LastWins(Cookies(CookieHeader(bjar))) = LastWins(Shown(st.jar))
=============================================================================

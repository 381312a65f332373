--------------------------------- MODULE Config ---------------------------------
(* Configurations (each with a prefix and maybe a file) over one environment.  *)
(* cfg: env = pairs at the start; confs = sequence of [prefix, lines, shares]  *)
(* (shares: looks in the guarded environment; else in a plain mapping of the   *)
(* same contents); casts = triples <<cast, value, result>> for casts other     *)
(* than bool.  A default written "d:..." is not a string.                      *)
(* Events: look(conf, key, cast, dk = none | null | val, d, got); set / del    *)
(* (key, val, got); read (key, how = item | get | in, got); behind(key, val,   *)
(* gone): the mapping itself is changed; keys(got).                            *)
EXTENDS Str

Quotes == {"\"", "'"}
Unquote(t) == The({Between(x, {i \in 1 .. Len(x) : At(x, i) \notin Quotes}, TRUE, TRUE) : x \in {t}})
(* <<key, value>> of a line, <<>> if it has none *)
LineV(t) == IF StartsWith(t, "#") \/ ~Contains(t, "=") THEN <<>>
            ELSE The({<<Trim(Upto(t, i - 1)), Unquote(Trim(From(t, i + 1)))>> : i \in {Find(t, "=")}})
Line(t) == The({LineV(x) : x \in {Trim(t)}})
FileOf(lines) == SelectSeq([i \in 1 .. Len(lines) |-> Line(lines[i])], LAMBDA x : x # <<>>)
(* an association list in which later entries win *)
LastOf(q, k) == Last(GetAll(q, k))

InitState(cfg) == [c |-> cfg, env |-> {<<p[1], p[2]>> : p \in SeqSet(cfg.env)}, read |-> {}, files |-> [i \in 1 .. Len(cfg.confs) |-> FileOf(cfg.confs[i].lines)]]
In(s, k) == \E p \in s.env : p[1] = k
Val(s, k) == (CHOOSE p \in s.env : p[1] = k)[2]
Without(S, k) == {p \in S : p[1] # k}

BoolOf(v) == LET l == Lower(v) IN IF l \in {"true", "1"} THEN "b:True" ELSE IF l \in {"false", "0"} THEN "b:False" ELSE "ValueError"
Table(c, cast, v) == LET m == SelectSeq(c.casts, LAMBDA x : x[1] = cast /\ x[2] = v) IN m[1][3]
Plain(v) == IF StartsWith(v, "d:") THEN v ELSE "s:" \o v
CastTo(c, cast, v) == IF cast = "" THEN Plain(v) ELSE IF cast = "bool" /\ ~StartsWith(v, "d:") THEN BoolOf(v) ELSE Table(c, cast, v)

FullKey(s, e) == s.c.confs[e.conf].prefix \o e.key
Found(s, e) == LET k == FullKey(s, e) IN
  IF In(s, k) THEN CastTo(s.c, e.cast, Val(s, k))
  ELSE IF Has(s.files[e.conf], k) THEN CastTo(s.c, e.cast, LastOf(s.files[e.conf], k))
  ELSE CASE e.dk = "none" -> "KeyError" [] e.dk = "null" -> "None" [] OTHER -> CastTo(s.c, e.cast, e.d)
Checks(s, e) ==
  CASE e.t = "look" -> <<<<"environment-then-file-then-default", e.got = Found(s, e)>>>>
    [] e.t = "set" -> <<<<"no-change-after-reading", e.got = (IF e.key \in s.read THEN "EnvironError" ELSE "ok")>>>>
    [] e.t = "del" -> <<<<"no-deletion-after-reading", e.got = (IF e.key \in s.read THEN "EnvironError" ELSE IF In(s, e.key) THEN "ok" ELSE "KeyError")>>>>
    [] e.t = "read" -> <<<<"reads-the-environment",
          e.got = CASE e.how = "in" -> (IF In(s, e.key) THEN "True" ELSE "False") [] In(s, e.key) -> "s:" \o Val(s, e.key) [] e.how = "get" -> "None" [] OTHER -> "KeyError">>>>
    [] e.t = "keys" -> <<<<"iterates-the-environment", Len(e.got) = Cardinality(s.env) /\ SeqSet(e.got) = {p[1] : p \in s.env} /\ e.n = Len(e.got)>>>>
    [] OTHER -> <<>>
Put(s, k, v) == [s EXCEPT !.env = Without(@, k) \cup {<<k, v>>}]
Apply(s, e) ==
  CASE e.t = "look" -> IF s.c.confs[e.conf].shares THEN [s EXCEPT !.read = @ \cup {FullKey(s, e)}] ELSE s
    [] e.t = "set" -> IF e.key \in s.read THEN s ELSE Put(s, e.key, e.val)
    [] e.t = "del" -> IF e.key \in s.read THEN s ELSE [s EXCEPT !.env = Without(@, e.key)]
    [] e.t = "read" -> [s EXCEPT !.read = @ \cup {e.key}]
    [] e.t = "behind" -> IF e.gone THEN [s EXCEPT !.env = Without(@, e.key)] ELSE Put(s, e.key, e.val)
    [] OTHER -> s
=============================================================================

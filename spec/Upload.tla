---------------------------------- MODULE Upload ----------------------------------
(* Uploaded files as the application uses them: each is one file, whether it is  *)
(* kept in memory or has moved to disk meanwhile.  cfg: files = for each its      *)
(* content (ASCII), pos, sized (the size was given), name, ctype; zero = the      *)
(* character a gap is filled with.  Events (f = the file, onloop = the event      *)
(* loop was held by work on a disk, exc = what it raised):                        *)
(* write(data, size) (and the size told afterwards), read(n, got) (n < 0:         *)
(* everything), seek(to), close, rawread(n, got), rawseek(to): on the file        *)
(* underneath; look(name, ctype, size).                                           *)
EXTENDS Str

InitState(cfg) == [zero |-> cfg.zero, f |-> [i \in 1 .. Len(cfg.files) |-> [c |-> cfg.files[i].content, pos |-> cfg.files[i].pos, open |-> TRUE, sized |-> cfg.files[i].sized,
                                                                           name |-> cfg.files[i].name, ctype |-> cfg.files[i].ctype]]]
Gap(s, n) == Concat([i \in 1 .. n |-> s.zero])
Written(s, x, d) ==
  IF d = "" THEN x.c
  ELSE IF x.pos > Len(x.c) THEN x.c \o Gap(s, x.pos - Len(x.c)) \o d
  ELSE Upto(x.c, x.pos) \o d \o From(x.c, x.pos + Len(d) + 1)
Rest(x, n) == The({IF n < 0 \/ n >= Len(t) THEN t ELSE Upto(t, n) : t \in {From(x.c, x.pos + 1)}})
SizeOf(x, c) == IF x.sized THEN ToString(Len(c)) ELSE "None"

Checks(s, e) ==
  LET x == s.f[e.f] IN
  IF e.t = "look" THEN <<<<"name-and-type", e.name = x.name /\ e.ctype = x.ctype>>, <<"size", x.open => e.size = SizeOf(x, x.c)>>>>
  ELSE
  <<<<"disk-work-off-the-event-loop", ~e.onloop>>>> \o
  (IF ~x.open THEN <<<<"closed-means-closed", e.t = "close" \/ e.exc # "">>>>
   ELSE CASE e.t = "write" -> <<<<"nothing-fails", e.exc = "">>, <<"size", e.size = SizeOf(x, Written(s, x, e.data))>>>>
          [] e.t \in {"read", "rawread"} -> <<<<"nothing-fails", e.exc = "">>, <<"reads-what-was-written", e.got = Rest(x, e.n)>>>>
          [] OTHER -> <<<<"nothing-fails", e.exc = "">>>>)
Apply(s, e) ==
  LET x == s.f[e.f] IN
  IF ~x.open THEN s
  ELSE CASE e.t = "write" -> [s EXCEPT !.f[e.f].c = Written(s, x, e.data), !.f[e.f].pos = @ + Len(e.data)]
         [] e.t \in {"read", "rawread"} -> [s EXCEPT !.f[e.f].pos = @ + Len(Rest(x, e.n))]
         [] e.t \in {"seek", "rawseek"} -> [s EXCEPT !.f[e.f].pos = e.to]
         [] e.t = "close" -> [s EXCEPT !.f[e.f].open = FALSE]
         [] OTHER -> s
=============================================================================

---------------------------------- MODULE Template ----------------------------------
(* Template responses of several requests at once.  cfg: procs (what the context   *)
(* processors add, in order: a sequence of [k, v, own], own = the request's id     *)
(* follows the value), escape (the environment escapes), known (<<name, what the    *)
(* first template of that name in search order is labelled>>), ctxs (contexts the  *)
(* application keeps: association lists), bases (<<request, its base URL>>), urlfor *)
(* (what an environment's own url_for gives, "" if it has none).                   *)
(* Events: edit(c, k, v): the application changes its context c;                   *)
(* make(r, name, c, old, status, media, hdrs, err, after, ctxafter): a response is  *)
(* made for request r (c = 0: without context; old: the request comes in the       *)
(* context only; status 0, media "": not given), err is what it raised, ctxafter   *)
(* context c afterwards.                                                           *)
(* send(r, debug, types, info, label, shown, req, link, status, ctype, hdrs, clen, *)
(* bg): what the server is told; debug: it takes debug messages; info: the         *)
(* template and context of that message.                                          *)
EXTENDS Str

EscMap == "&" :> "&amp;" @@ "<" :> "&lt;" @@ ">" :> "&gt;" @@ "\"" :> "&#34;" @@ "'" :> "&#39;"
EscC(c) == IF c \in DOMAIN EscMap THEN EscMap[c] ELSE c
EscV(t) == Fold(LAMBDA a, i : a \o EscC(At(t, i)), "", Upto1(Len(t)))
Shown(c, t) == IF c.escape THEN The({EscV(x) : x \in {t}}) ELSE t

Put(m, k, v) == Append(SelectSeq(m, LAMBDA p : p[1] # k), <<k, v>>)
PutAll(m, ps, r) == Fold(LAMBDA a, p : Put(a, p.k, IF p.own THEN p.v \o r ELSE p.v), m, ps)
Given(s, e) == IF e.c = 0 THEN <<>> ELSE s.ctxs[e.c]
Whose(s, e) == Get(Given(s, e), "request", e.r)
Context(s, e) ==
  LET r == Whose(s, e) IN Fold(LAMBDA a, ps : PutAll(a, ps, r), Put(Given(s, e), "request", r), s.c.procs)

InitState(cfg) == [c |-> cfg, ctxs |-> cfg.ctxs, made |-> <<>>]
Made(s, r) == The({<<m[2], m[3]>> : m \in {x \in SeqSet(s.made) : x[1] = r}})
MediaType(m) == IF m = "" THEN "text/html; charset=utf-8" ELSE IF StartsWith(m, "text/") THEN m \o "; charset=utf-8" ELSE m

Checks(s, e) ==
  CASE e.t = "edit" -> <<<<"edit", TRUE>>>>
    [] e.t = "make" ->
         LET norequest == e.old /\ ~Has(Given(s, e), "request")
             missing == ~Has(s.c.known, e.name) IN
         <<<<"needs-a-request", e.err = "value" => norequest>>, <<"finds-the-template", e.err = "missing" => missing>>,
           <<"refused-when-impossible", norequest \/ missing => e.err \in {"value", "missing"}>>,
           <<"nothing-else-fails", e.err \in {"", "value", "missing"}>>,
           <<"context-given-is-left-alone", SeqSet(e.ctxafter) = SeqSet(Given(s, e))>>>>
    [] e.t = "send" ->
         LET m == Made(s, e.r)
             k == m[1]
             x == m[2]
             who == Get(x, "request", "") IN
         <<<<"messages", e.types = (IF e.debug THEN <<"debug">> ELSE <<>>) \o <<"start", "body">>>>,
           <<"debug-tells-template-and-context", e.debug => e.info.name = k.name /\ SeqSet(e.info.ctx) = SeqSet(x)>>,
           <<"template-asked-for", e.label = Get(s.c.known, k.name, "")>>,
           <<"context-rendered", \A i \in 1 .. Len(e.shown) : e.shown[i][2] = Shown(s.c, Get(x, e.shown[i][1], ""))>>,
           <<"own-request", e.req = who>>,
           <<"own-links", e.link = (IF s.c.urlfor # "" THEN s.c.urlfor ELSE Get(s.c.bases, who, "") \o "/items/" \o who \o "/z")>>,
           <<"status", e.status = (IF k.status = 0 THEN 200 ELSE k.status)>>,
           <<"content-type", e.ctype = MediaType(k.media)>>, <<"headers", e.hdrs = k.hdrs>>, <<"content-length", e.clen>>,
           <<"background-runs-once", e.bg = 1>>>>
    [] OTHER -> <<<<"only-what-was-asked-for", FALSE>>>>
Apply(s, e) ==
  CASE e.t = "edit" -> [s EXCEPT !.ctxs[e.c] = Put(@, e.k, e.v)]
    [] e.t = "make" -> IF e.err # "" THEN s ELSE [s EXCEPT !.made = Append(SelectSeq(@, LAMBDA m : m[1] # e.r), <<e.r, [name |-> e.name, status |-> e.status, media |-> e.media, hdrs |-> e.hdrs], Context(s, e)>>)]
    [] OTHER -> s
=============================================================================

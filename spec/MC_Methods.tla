------------------------------- MODULE MC_Methods -------------------------------
(* Every choice of handlers and declared methods over a small alphabet, every  *)
(* request method; the endpoint as the specification has it answers each.      *)
EXTENDS Methods, Json
VARIABLES cfg, m
vars == <<cfg, m>>
Names == <<"get", "head", "post", "trace">>
Ms == {"GET", "HEAD", "POST", "TRACE", "DELETE", "PROPFIND", "SEND"}
Sub(q) == {SelectSeq(q, LAMBDA x : x \in S) : S \in SUBSET SeqSet(q)}
Decl == Sub(<<"GET", "HEAD", "POST">>)
Cfgs == [style : {"function"}, given : BOOLEAN, declared : Decl \ {<<>>}, defined : {<<>>}, none : {<<>>}, sync : {<<>>, <<"fn">>}]
        \cup {c \in [style : {"class", "both"}, given : BOOLEAN, declared : Decl \ {<<>>}, defined : Sub(Names), none : {<<>>, <<"head">>, <<"post">>}, sync : {<<>>, <<"get">>, <<"post", "head">>}] :
                SeqSet(c.none) \cap SeqSet(c.defined) = {} /\ (c.style = "class" <=> ~c.given)}
Init == cfg \in Cfgs /\ m \in Ms
Next == FALSE /\ UNCHANGED vars
Export == PrintT("GEN " \o ToJson(cfg))
(* exactly one of: answered by one handler that exists, refused *)
Answered == m \in Supported(cfg) => \/ cfg.style = "function" \/ HandlerOf(cfg, m) \in SeqSet(cfg.defined)
HeadLikeGet == cfg.style = "function" /\ "GET" \in Supported(cfg) => "HEAD" \in Supported(cfg)
HeadFallsBack == cfg.style = "class" /\ "get" \in SeqSet(cfg.defined) /\ cfg.none = <<>> => "HEAD" \in Supported(cfg)
NeverInternal == "SEND" \notin Supported(cfg)
(* some Allow header is right for every refusal, and it never lists a method that is refused by the same part *)
RefusalTruthful == m \notin Supported(cfg) =>
   \A A \in {ByRoute(cfg), ByClass(cfg)} : \A q \in {SelectSeq(<<"GET", "HEAD", "POST", "TRACE">>, LAMBDA x : x \in A)} : AllowOk(cfg, m, q) => m \notin SeqSet(q)
=============================================================================

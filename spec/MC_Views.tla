------------------------------ MODULE MC_Views ------------------------------
(* Every history of a few scopes, copies of them and views, with writes and     *)
(* deletions through any of them; owner: which connection a scope came from.    *)
EXTENDS Views, Json
CONSTANTS MaxScopes, MaxViews, MaxOps, MaxVals, Export
VARIABLES s, owner, hist, n
vars == <<s, owner, hist, n>>
NoHist == [s |-> s, owner |-> owner, n |-> n]

Init == s = InitState([app |-> <<>>]) /\ owner = <<>> /\ hist = <<>> /\ n = 0
Do(e) == /\ Len(hist) < MaxOps /\ s' = Apply(s, e) /\ hist' = Append(hist, e)
Val == ToString(n + 1)
Start == /\ Len(s.scopes) < MaxScopes
         /\ \E h \in BOOLEAN : Do([t |-> "start", has |-> h, init |-> IF h THEN <<<<"a", "0">>>> ELSE <<>>])
         /\ owner' = Append(owner, Len(s.scopes) + 1) /\ UNCHANGED n
Fork == /\ Len(s.scopes) < MaxScopes
        /\ \E i \in 1 .. Len(s.scopes) : Do([t |-> "fork", of |-> i]) /\ owner' = Append(owner, owner[i])
        /\ UNCHANGED n
View == /\ Len(s.views) < MaxViews /\ \E i \in 1 .. Len(s.scopes) : Do([t |-> "view", sc |-> i]) /\ UNCHANGED <<owner, n>>
SetIt == /\ n < MaxVals /\ \E v \in 1 .. Len(s.views) : Do([t |-> "set", v |-> v, k |-> "a", val |-> Val])
       /\ n' = n + 1 /\ UNCHANGED owner
GetIt == \E v \in 1 .. Len(s.views) : Do([t |-> "get", v |-> v, k |-> "a", how |-> "default"]) /\ UNCHANGED <<owner, n>>
DelIt == \E v \in 1 .. Len(s.views) : Has1(Seen(s, v), "a") /\ Do([t |-> "del", v |-> v, k |-> "a"]) /\ UNCHANGED <<owner, n>>
RawSet == /\ n < MaxVals /\ \E i \in 1 .. Len(s.scopes) : s.scopes[i].st # 0 /\ Do([t |-> "rawset", sc |-> i, k |-> "a", val |-> Val])
          /\ n' = n + 1 /\ UNCHANGED owner
Put == /\ n < MaxVals /\ \E i \in 1 .. Len(s.scopes) : Do([t |-> "put", sc |-> i, k |-> "user", val |-> Val])
       /\ n' = n + 1 /\ UNCHANGED owner
SPut == /\ \E i \in 1 .. Len(s.scopes) : s.scopes[i].ses = 0 /\ Do([t |-> "sput", sc |-> i, init |-> <<>>]) /\ UNCHANGED <<owner, n>>
SSet == /\ n < MaxVals /\ \E v \in 1 .. Len(s.views) : Sess(s, v) # 0 /\ Do([t |-> "sset", v |-> v, k |-> "a", val |-> Val])
        /\ n' = n + 1 /\ UNCHANGED owner
Next == /\ \/ Start \/ Fork \/ View \/ SetIt \/ GetIt \/ DelIt \/ RawSet \/ Put \/ SPut \/ SSet
        /\ Export /\ Len(hist') = MaxOps => PrintT("GEN " \o ToJson(hist'))

Vs == 1 .. Len(s.views)
(* views of one scope show one state, once it is there *)
OneState == \A v \in Vs, w \in Vs : s.views[v].sc = s.views[w].sc => Seen(s, v) = Seen(s, w)
(* whatever a view's state is, it is its scope's *)
OfItsScope == \A v \in Vs : s.views[v].d # 0 => s.views[v].d = ScopeOf(s, v).st
(* no dictionary is reached from two connections, and none is the application's *)
Apart == \A i \in 1 .. Len(s.scopes), j \in 1 .. Len(s.scopes) : owner[i] # owner[j] =>
           {s.scopes[i].st, s.scopes[i].ses} \cap {s.scopes[j].st, s.scopes[j].ses} \subseteq {0}
NotTheApps == \A i \in 1 .. Len(s.scopes) : 1 \notin {s.scopes[i].st, s.scopes[i].ses} /\ (s.scopes[i].st = s.scopes[i].ses => s.scopes[i].st = 0)
(* a copy made after the state was there shares it *)
=============================================================================

----------------------------- MODULE CacheTrace -----------------------------
(* Histories of the real cache.  After every operation the harness asks for     *)
(* every key of its universe; all: the keys that are cached.                    *)
EXTENDS CacheDefs, TraceLib
VARIABLES m, limit, live, l
vars == <<m, limit, live, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Init == m = Nothing /\ limit = 0 /\ live = FALSE /\ l = 1
Seen == Range(Ev.all)
Create == /\ Is("Create")
          /\ Ev.made = Ev.positive
          /\ live' = Ev.made /\ limit' = Ev.limit /\ m' = Nothing
Store == /\ Is("Store") /\ live
         /\ Ev.ok = StoreOK(m, limit)
         /\ m' = Stored(m, limit, Ev.recs)
         /\ Seen = DOMAIN m'
         /\ UNCHANGED <<limit, live>>
Get == /\ Is("Get") /\ live
       /\ Ev.ok = (Ev.k \in DOMAIN m)
       /\ Ev.ok => Ev.v = m[Ev.k].v
       /\ m' = IF Ev.ok THEN Read(m, Ev.k) ELSE m
       /\ Seen = DOMAIN m
       /\ UNCHANGED <<limit, live>>
Ask == /\ Is("Ask") /\ live
       /\ Ev.r = (Ev.k \in DOMAIN m)
       /\ Seen = DOMAIN m
       /\ UNCHANGED <<m, limit, live>>
Next == Create \/ Store \/ Get \/ Ask
TSpec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE Cache -------------------------------
(* The usage-aware cache under arbitrary histories, with the last value stored *)
(* for every key remembered on the side.                                       *)
EXTENDS CacheDefs, TLC
CONSTANTS Keys, Vals, Limit, MaxBulk, Bug
VARIABLES m, last, answer, evicted
vars == <<m, last, answer, evicted>>
Recs == UNION {[1..n -> Keys \X Vals] : n \in 0..MaxBulk}
Init == m = Nothing /\ last = Nothing /\ answer = <<>> /\ evicted = {}
Remember(recs) == [k \in DOMAIN last \cup {recs[i][1] : i \in DOMAIN recs} |->
                     IF \E i \in DOMAIN recs : recs[i][1] = k
                     THEN recs[CHOOSE i \in DOMAIN recs : recs[i][1] = k /\ \A j \in DOMAIN recs : j > i => recs[j][1] # k][2]
                     ELSE last[k]]
Store == \E recs \in Recs :
    /\ m' = CASE Bug = "none" -> Stored(m, Limit, recs)
              [] Bug = "evictUsed" -> IF Exceeded(m, Limit) THEN PutAll(Nothing, recs) ELSE PutAll(m, recs)
              [] Bug = "evictAfter" -> Room(PutAll(m, recs), Limit)
              [] Bug = "firstWins" -> LET r == Room(m, Limit) IN [k \in DOMAIN PutAll(r, recs) |-> IF k \in DOMAIN r THEN r[k] ELSE PutAll(r, recs)[k]]
              [] OTHER -> Stored(m, Limit, recs)
    /\ last' = IF Bug # "none" \/ StoreOK(m, Limit) THEN Remember(recs) ELSE last
    /\ evicted' = {k \in DOMAIN m : k \notin DOMAIN m'}
    /\ answer' = <<"store", {recs[i][1] : i \in DOMAIN recs}, m, Bug # "none" \/ StoreOK(m, Limit)>>
Get == \E k \in Keys :
    /\ IF k \in DOMAIN m
       THEN m' = Read(m, k) /\ answer' = <<"value", k, m[k].v>>
       ELSE m' = (IF Bug = "readInserts" THEN Put1(m, k, 0) ELSE m) /\ answer' = <<"refused", k>>
    /\ evicted' = {} /\ UNCHANGED last
Ask == \E k \in Keys : answer' = <<"cached", k, k \in DOMAIN m>> /\ evicted' = {} /\ UNCHANGED <<m, last>>
Next == Store \/ Get \/ Ask
Spec == Init /\ [][Next]_vars
LastValue == \A k \in DOMAIN m : k \in DOMAIN last /\ m[k].v = last[k]
Answers == answer # <<>> /\ answer[1] = "value" => answer[3] = last[answer[2]]
StoredStays == answer # <<>> /\ answer[1] = "store" /\ answer[4] => answer[2] \subseteq DOMAIN m
OnlyUnusedEvicted == evicted # {} => /\ answer[1] = "store"
                                     /\ Exceeded(answer[3], Limit)
                                     /\ evicted \subseteq {k \in DOMAIN answer[3] : ~answer[3][k].used}
Bounded == Cardinality(DOMAIN m) <= Limit + MaxBulk
=============================================================================

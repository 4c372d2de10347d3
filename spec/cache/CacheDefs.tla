----------------------------- MODULE CacheDefs -----------------------------
(* A cache is a map from keys to [v |-> value, used |-> read since stored].    *)
EXTENDS Integers, Sequences, FiniteSets
Nothing == [k \in {} |-> 0]
Drop(m) == LET keep == {k \in DOMAIN m : m[k].used} IN [k \in keep |-> m[k]]
Put1(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN [v |-> v, used |-> FALSE] ELSE m[x]]
RECURSIVE PutAll(_, _)
PutAll(m, recs) == IF recs = <<>> THEN m ELSE PutAll(Put1(m, Head(recs)[1], Head(recs)[2]), Tail(recs))
Exceeded(m, limit) == Cardinality(DOMAIN m) > limit
Room(m, limit) == IF Exceeded(m, limit) THEN Drop(m) ELSE m
StoreOK(m, limit) == ~Exceeded(Room(m, limit), limit)
Stored(m, limit, recs) == IF StoreOK(m, limit) THEN PutAll(Room(m, limit), recs) ELSE Room(m, limit)
Read(m, k) == [m EXCEPT ![k].used = TRUE]
=============================================================================

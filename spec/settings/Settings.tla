------------------------------- MODULE Settings -------------------------------
(* A settings object: parsing argument lists, putting values (some refused by the *)
(* value's own conversion), loading files (replacing everything, or refused), and  *)
(* the recursive merge of two trees.  hist is what was written since the last load. *)
EXTENDS SettingsDefs, TLC
CONSTANTS Names, Values, MaxOps, SubNames, Bug
VARIABLES t, hist, ops
vars == <<t, hist, ops>>
Paths == {<<n>> : n \in Names} \cup {<<n, m>> : n, m \in Names}
Init == t = Empty /\ hist = <<>> /\ ops = 0
Keep == Bug = "firstWins"
Put(p, v) == /\ t' = (IF Keep /\ Present(t, p) THEN t ELSE Write(t, p, v))
             /\ hist' = Append(hist, <<p, v>>)
\* a value whose conversion to text fails
RefusedPut(p) == /\ t' = (IF Bug = "refusedWrites" /\ ~Present(t, p) THEN Write(t, p, "") ELSE t) /\ UNCHANGED hist
Args(p, v, q, w) == /\ t' = (IF Bug = "lastArgOnly" THEN Write(t, q, w) ELSE Write(Write(t, p, v), q, w))
                    /\ hist' = hist \o <<<<p, v>>, <<q, w>>>>
Flag(n) == /\ t' = Write(t, <<n>>, n) /\ hist' = Append(hist, <<<<n>>, n>>)
Load(p, v) == /\ t' = Write(IF Bug = "loadKeeps" THEN t ELSE Empty, p, v) /\ hist' = <<<<p, v>>>>
BadLoad == /\ t' = (IF Bug = "badLoadClears" THEN Empty ELSE t) /\ UNCHANGED hist
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E p \in Paths, v \in Values : Put(p, v) \/ Load(p, v)
           \/ \E p \in Paths : RefusedPut(p)
           \/ \E p, q \in Paths, v, w \in Values : Args(p, v, q, w)
           \/ \E n \in Names : Flag(n)
           \/ BadLoad
Spec == Init /\ [][Next]_vars
Writes(p) == {i \in DOMAIN hist : hist[i][1] = p}
Below(p) == {i \in DOMAIN hist : p \in Ancestors(hist[i][1])}
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
LastWriteWins == \A p \in Paths :
   IF Writes(p) # {} THEN Present(t, p) /\ t[p] = hist[Last(Writes(p))][2]
   ELSE IF Below(p) # {} THEN Present(t, p) /\ t[p] = "" ELSE ~Present(t, p)
PrefixClosed == \A p \in DOMAIN t : Ancestors(p) \subseteq DOMAIN t
----------------------------------------------------------------------------
(* the merge as the code does it, child by child *)
Kids(a) == {p[1] : p \in DOMAIN a}
Sub(a, n) == [q \in {SubSeq(p, 2, Len(p)) : p \in {x \in DOMAIN a : Len(x) > 1 /\ x[1] = n}} |-> a[<<n>> \o q]]
RECURSIVE Merge(_, _)
Glue(a, n, v, s) == [p \in (DOMAIN a \cup {<<n>>}) \cup {<<n>> \o q : q \in DOMAIN s} |->
                       IF p = <<n>> THEN v ELSE IF p[1] = n /\ Len(p) > 1 /\ Tail(p) \in DOMAIN s THEN s[Tail(p)] ELSE a[p]]
RECURSIVE MergeKids(_, _, _)
MergeKids(a, b, S) == IF S = {} THEN a ELSE
   LET n == CHOOSE x \in S : TRUE
       m == IF <<n>> \in DOMAIN a
            THEN IF Bug = "dropsSubtree" THEN a ELSE Glue(a, n, IF Bug = "rightWins" THEN b[<<n>>] ELSE a[<<n>>], Merge(Sub(a, n), Sub(b, n)))
            ELSE Glue(a, n, b[<<n>>], Sub(b, n))
   IN  MergeKids(m, b, S \ {n})
Merge(a, b) == MergeKids(a, b, Kids(b))
MergeNames == {"a", "b"}
MergePaths == {<<n>> : n \in MergeNames} \cup {<<n, m>> : n \in MergeNames, m \in SubNames}
MergeTrees == UNION {[d -> {"", "x"}] : d \in {s \in SUBSET MergePaths : \A p \in s : Ancestors(p) \subseteq s}}
MergeIsLaw == \A a, b \in MergeTrees : Merge(a, b) = MergeLaw(a, b)
MergeLaws == \A a, b \in MergeTrees : /\ Merge(a, Empty) = a /\ Merge(Empty, a) = a /\ Merge(a, a) = a
                                      /\ \A p \in DOMAIN b : p \in DOMAIN Merge(a, b)
ASSUME MergeIsLaw /\ MergeLaws
=============================================================================

----------------------------- MODULE SettingsDefs -----------------------------
(* Settings are a tree: a function from paths (sequences of names, prefix-closed, *)
(* the root excluded) to texts.  Writing a path creates its ancestors, empty.    *)
EXTENDS Integers, Sequences, FiniteSets
Empty == [p \in {} |-> ""]
Ancestors(p) == {SubSeq(p, 1, i) : i \in 1..(Len(p) - 1)}
Write(t, p, v) == [q \in DOMAIN t \cup Ancestors(p) \cup {p} |->
                     IF q = p THEN v ELSE IF q \in DOMAIN t THEN t[q] ELSE ""]
Present(t, p) == p \in DOMAIN t
\* both trees' settings, those of the left one where both have a value
MergeLaw(a, b) == [p \in DOMAIN a \cup DOMAIN b |-> IF p \in DOMAIN a THEN a[p] ELSE b[p]]
\* the value read as an integer / a truth / in halves; texts the traces use
IntOf == [x \in {"0", "1", "5", "42", "-3", "2000", " 7"} |->
            CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "5" -> 5 [] x = "42" -> 42 [] x = "-3" -> 0 - 3 [] x = "2000" -> 2000 [] OTHER -> 7]
BoolOf == [x \in {"0", "1", "true", "false"} |-> IF x \in {"1", "true"} THEN 1 ELSE 0]
HalvesOf == [x \in DOMAIN IntOf \cup {"1.5", "-0.5", "1e2"} |->
               CASE x = "1.5" -> 3 [] x = "-0.5" -> 0 - 1 [] x = "1e2" -> 200 [] OTHER -> 2 * IntOf[x]]
=============================================================================

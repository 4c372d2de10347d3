-------------------------------- MODULE Draws --------------------------------
(* Draws from a generator with outputs 0..R: discrete draws from a range of n     *)
(* values starting at lo, and events with probability p/D.                       *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS R, MaxRange, D, Bug
VARIABLES lo, n, seen, todo
vars == <<lo, n, seen, todo>>
Mod(a, b) == a - b * (a \div b)
Discrete(r) == CASE Bug = "excludesMax" /\ n > 1 -> lo + Mod(r, n - 1)
                 [] Bug = "beyondMax" -> lo + Mod(r, n + 1)
                 [] OTHER -> lo + Mod(r, n)
Happens(r, p) == IF Bug = "zeroHappens" THEN r * D <= p * R ELSE r * D <= p * R /\ p > 0
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Init == lo \in {0 - 2, 0, 3} /\ n \in 1..MaxRange /\ seen = {} /\ todo = 0..R
Draw == /\ todo # {}
        /\ seen' = seen \cup {Discrete(Least(todo))}
        /\ todo' = todo \ {Least(todo)}
        /\ UNCHANGED <<lo, n>>
Next == Draw
Spec == Init /\ [][Next]_vars
InRange == seen \subseteq lo..(lo + n - 1)
Reachable == (todo = {}) => (seen = lo..(lo + n - 1))
Certain == \A r \in 0..R : Happens(r, D) /\ ~Happens(r, 0)
Share == \A p \in 0..D : LET c == Cardinality({r \in 0..R : Happens(r, p)})
                         IN  c * D <= p * (R + 1) + D /\ c * D >= p * (R + 1) - D
=============================================================================

----------------------------- MODULE HookeJeeves -----------------------------
(* The pattern search of Hooke and Jeeves (minimizing) on the integer lattice    *)
(* (unit: the last step tried), for every function f on 0..Max in Dim dimensions. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Dim, Max, Vals, H0, Limit, Acc, Bug
VARIABLES f, start, base, after, h, phase, iter, visited
vars == <<f, start, base, after, h, phase, iter, visited>>
Cube == [1..Dim -> 0..Max]
Top == 1000
F(p) == IF p \in Cube THEN f[p] ELSE Top
Move(p, i, d) == [p EXCEPT ![i] = @ + d]
Best(p, i, d) == IF F(Move(p, i, d)) < F(p) THEN Move(p, i, d)
                 ELSE IF Bug # "onlyForward" /\ F(Move(p, i, 0 - d)) < F(p) THEN Move(p, i, 0 - d) ELSE p
RECURSIVE Explore(_, _, _)
Explore(p, i, d) == IF i > Dim THEN p ELSE Explore(Best(p, i, d), i + 1, d)
Search(p) == Explore(p, 1, h)
Init == /\ f \in [Cube -> Vals] /\ start \in Cube /\ base = start /\ after = start
        /\ h = H0 /\ phase = "search" /\ iter = 0 /\ visited = {start}
Look == /\ phase = "search"
        /\ LET a == Search(base) IN
           /\ after' = a /\ visited' = visited \cup {a}
           /\ IF a = base
              THEN IF h = 1 \/ Bug = "stopsEarly" THEN phase' = "done" /\ h' = h ELSE phase' = "search" /\ h' = h \div 2
              ELSE phase' = "pattern" /\ h' = h
        /\ UNCHANGED <<f, start, base, iter>>
Pattern == /\ phase = "pattern"
           /\ LET n == [i \in 1..Dim |-> base[i] + Acc * (after[i] - base[i])]
                  b == Explore(n, 1, h)
              IN  /\ base' = after /\ visited' = visited \cup {n, b}
                  /\ IF F(after) <= F(b) /\ Bug # "acceptsWorse"
                     THEN phase' = "search" /\ UNCHANGED <<after, iter>>
                     ELSE /\ after' = b /\ iter' = iter + 1
                          /\ phase' = IF iter + 1 = Limit THEN "limit" ELSE "pattern"
           /\ UNCHANGED <<f, start, h>>
Next == Look \/ Pattern
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ended == phase \in {"done", "limit"}
NotWorse == Ended => F(after) <= F(start)
Evaluated == Ended => after \in visited
LocalOptimum == phase = "done" => \A i \in 1..Dim : F(Move(after, i, 1)) >= F(after) /\ F(Move(after, i, 0 - 1)) >= F(after)
Terminates == <>Ended
=============================================================================

-------------------------------- MODULE Anneal --------------------------------
(* Guarded evaluation and the annealing walk: an optimiser asks for points, the   *)
(* guard evaluates the user's function g only where the user's constraints hold    *)
(* and otherwise ends the run with an error; the walk moves to a better neighbour   *)
(* always and to a worse one perhaps, but never at temperature zero.              *)
(* Cold: all differences are so large that a worse neighbour is never accepted.    *)
EXTENDS Integers, FiniteSets
CONSTANTS Dim, Lo, Hi, Out, Vals, Iters, Cold, Bug
VARIABLES g, valid, max, cur, pend, iter, phase, asked, evaluated, result
vars == <<g, valid, max, cur, pend, iter, phase, asked, evaluated, result>>
Coord == 0..Out              \* starts may lie outside of the walk's bounds Lo..Hi
Point == [1..Dim -> Coord]
Mini(p) == IF max /\ Bug # "ignoresDirection" THEN 0 - g[p] ELSE g[p]
Wanted(p) == IF max THEN 0 - g[p] ELSE g[p]
Init == /\ g \in [Point -> Vals] /\ valid \in SUBSET Point /\ max \in BOOLEAN
        /\ cur \in Point /\ pend = cur /\ iter = 0 /\ phase = "walk"
        /\ asked = {} /\ evaluated = {} /\ result = cur
Can(p) == p \in valid \/ Bug = "evaluatesAnyway"
Ask(S) == /\ asked' = asked \cup S /\ evaluated' = evaluated \cup {p \in S : Can(p)}
          /\ IF \A p \in S : Can(p) THEN phase' = "decide"
             ELSE IF Bug = "silent" THEN phase' = "ok" ELSE phase' = "error"
Neighbours == {p \in Point : \E i \in 1..Dim : /\ \A j \in (1..Dim) \ {i} : p[j] = cur[j]
                                               /\ p[i] \in (IF Bug = "beyondBounds" THEN Coord ELSE Lo..Hi)}
Step == /\ phase = "walk" /\ iter < Iters
        /\ \E p \in Neighbours : pend' = p /\ Ask({cur, p})
        /\ iter' = iter + 1
        /\ UNCHANGED <<g, valid, max, cur, result>>
Better == Mini(pend) <= Mini(cur)
Chance == iter < Iters /\ ~Cold
Decide == /\ phase = "decide" /\ phase' = "walk"
          /\ cur' \in (IF Better THEN (IF Bug = "losesBetter" THEN {cur, pend} ELSE {pend})
                       ELSE IF Chance \/ Bug = "alwaysHot" THEN {cur, pend} ELSE {cur})
          /\ UNCHANGED <<g, valid, max, pend, iter, asked, evaluated, result>>
Finish == /\ phase = "walk" /\ iter = Iters
          /\ LET r == IF Bug = "returnsLast" THEN pend ELSE cur IN
             result' = r /\ phase' = (IF r \in valid \/ Bug = "silent" THEN "ok" ELSE "error")
          /\ UNCHANGED <<g, valid, max, cur, pend, iter, asked, evaluated>>
Next == Step \/ Decide \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Guarded == evaluated \subseteq valid
Reported == (phase = "ok") => (asked \subseteq valid /\ result \in valid)
InBounds == (\A i \in 1..Dim : cur[i] \in Lo..Hi) => \A i \in 1..Dim : pend[i] \in Lo..Hi
FromEvaluated == (phase = "ok" /\ Iters > 0) => result \in evaluated
ColdBest == (phase = "ok" /\ Cold /\ Iters > 0) => \A p \in evaluated : Wanted(result) <= Wanted(p)
\* the decision after the last step is taken at temperature zero
LastNotWorse == [][(phase = "decide" /\ iter = Iters) => (Wanted(cur') <= Wanted(cur) /\ Wanted(cur') <= Wanted(pend))]_vars
Terminates == <>(phase \in {"ok", "error"})
=============================================================================

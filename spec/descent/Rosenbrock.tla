------------------------------ MODULE Rosenbrock ------------------------------
(* The Rosenbrock method along a line, for every objective function: the value    *)
(* of a point is chosen when it is first evaluated.                              *)
EXTENDS SweepDefs
CONSTANTS First, Top, Precision, Limit, Vals, Bug
VARIABLES value, at, step, sweeps, moves, phase, tested
vars == <<value, at, step, sweeps, moves, phase, tested>>
Known == DOMAIN value
Init == /\ at = 0 /\ step = First /\ sweeps = 0 /\ moves = <<>> /\ phase = "sweep" /\ tested = <<>>
        /\ value \in [{0} -> Vals]
Look(p) == IF p \in Known THEN {value} ELSE {[q \in Known \cup {p} |-> IF q = p THEN w ELSE value[q]] : w \in Vals}
Better(w, test) == IF Bug = "acceptsEqual" THEN w[test] <= w[at] ELSE w[test] < w[at]
Taken(w, test) ==
    LET better == Better(w, test)
        n == NewStep(step, Abs(step), better, IF Bug = "noCap" THEN 1000000 ELSE Top)
    IN  CASE Bug = "keepsFailed" /\ ~better -> 0 - step
          [] Bug = "onlyGrows" /\ ~better -> n * 2
          [] OTHER -> n
Small(d) == Abs(d) <= (IF Bug = "stopsEarly" THEN 2 * Precision ELSE Precision)
Sweep == /\ phase = "sweep"
         /\ \E w \in Look(at + step) :
            /\ \E u \in IF at \in DOMAIN w THEN {w} ELSE {[q \in DOMAIN w \cup {at} |-> IF q = at THEN x ELSE w[q]] : x \in Vals} :
               /\ value' = u
               /\ LET n == Taken(u, at + step)
                      go == IF Bug = "stays" /\ ~Better(u, at + step) THEN 0 ELSE n
                  IN  /\ step' = n /\ at' = at + go
                      /\ tested' = Append(tested, [at |-> at, step |-> step, better |-> u[at + step] < u[at]])
                      /\ moves' = Append(moves, go)
                      /\ sweeps' = sweeps + 1
                      /\ phase' = IF Small(go) THEN "small" ELSE IF sweeps + 1 = Limit + (IF Bug = "oneMore" THEN 1 ELSE 0) THEN "limit" ELSE "sweep"
Spec == Init /\ [][Sweep]_vars /\ WF_vars(Sweep)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Last(s) == s[Len(s)]
EndsWhereItGoes == at = Sum(moves)
Law == \A k \in DOMAIN moves : moves[k] = NewStep(tested[k].step, Abs(tested[k].step), tested[k].better, Top)
Chained == /\ (tested # <<>> => tested[1].step = First)
           /\ \A k \in 2..Len(tested) : Abs(tested[k].step) = NewLength(Abs(tested[k - 1].step), tested[k - 1].better, Top)
NeverLonger == Abs(step) <= (IF moves = <<>> THEN First ELSE Top)
InTime == sweeps <= Limit
EndsRight == /\ phase = "small" => Abs(Last(moves)) <= Precision
             /\ phase = "limit" => sweeps = Limit
             /\ \A k \in 1..(Len(moves) - 1) : Abs(moves[k]) > Precision
Ends == <>(phase \in {"small", "limit"})
=============================================================================

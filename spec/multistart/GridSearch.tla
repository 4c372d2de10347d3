----------------------------- MODULE GridSearch -----------------------------
(* The grid search as the code makes it: all points are numbered, their values are  *)
(* counted by a pool in any order, the best is looked for when all are there.      *)
EXTENDS GridDefs, FiniteSets, TLC
CONSTANTS MaxLow, MaxHigh, MaxStep, MaxDim, Vals, Bug
VARIABLES low, high, step, dim, max, val, phase, result
vars == <<low, high, step, dim, max, val, phase, result>>
N == Along(low, high, step)
Init == /\ low \in 0..MaxLow /\ high \in 0..MaxHigh /\ step \in 1..MaxStep /\ dim \in 0..MaxDim /\ max \in BOOLEAN
        /\ val = <<>> /\ phase = "start" /\ result = 0 - 1
Total == IF Bug = "lastMissing" THEN Power(N, dim) - 1 ELSE Power(N, dim)
Coordinate(i, j) == LET k == IF Bug = "oneAxis" THEN i ELSE i \div Power(N, j - 1) IN (k % N) * step + low
Point(i) == [j \in 1..dim |-> Coordinate(i, j)]
Start == /\ phase = "start"
         /\ IF N <= 0 THEN phase' = "refused" ELSE phase' = "count"
         /\ UNCHANGED <<low, high, step, dim, max, val, result>>
Count == /\ phase = "count"
         /\ \E i \in (0..(Total - 1)) \ DOMAIN val, v \in Vals : val' = [k \in DOMAIN val \cup {i} |-> IF k = i THEN v ELSE val[k]]
         /\ UNCHANGED <<low, high, step, dim, max, phase, result>>
Better(v, w) == IF max /\ Bug # "turned" THEN v > w ELSE IF Bug = "turned" THEN v > w ELSE v < w
Pick == /\ phase = "count" /\ DOMAIN val = 0..(Total - 1) /\ Total > 0
        /\ \E i \in DOMAIN val : result' = i /\ \A k \in DOMAIN val : ~Better(val[k], val[i])
        /\ phase' = "done" /\ UNCHANGED <<low, high, step, dim, max, val>>
Next == Start \/ Count \/ Pick
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the whole grid, every point once, no other point
WholeGrid == phase = "done" =>
   LET seen == {Point(i) : i \in DOMAIN val} IN
     /\ Cardinality(seen) = Cardinality(DOMAIN val)
     /\ Cardinality(seen) = Size(low, high, step, dim)
     /\ \A x \in seen : OnGrid(x, low, high, step, dim)
BestOfAll == phase = "done" => \A i \in DOMAIN val : IF max THEN val[result] >= val[i] ELSE val[result] <= val[i]
RefusedIffEmpty == (phase = "refused") => high < low
Ends == <>(phase \in {"done", "refused"})
=============================================================================

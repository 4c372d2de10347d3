------------------------------ MODULE GridDefs ------------------------------
(* The grid of a search: coordinates low, low + step, low + 2 step ... not above   *)
(* high, all combinations of them.                                               *)
EXTENDS Integers, Sequences
\* number of values for one coordinate (0: there is none, the search is refused)
Along(low, high, step) == IF high < low THEN 0 ELSE (high - low) \div step + 1
RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN 1 ELSE b * Power(b, n - 1)
Size(low, high, step, dim) == Power(Along(low, high, step), dim)
OnGrid(x, low, high, step, dim) == Len(x) = dim /\ \A j \in 1..dim : x[j] >= low /\ x[j] <= high /\ (x[j] - low) % step = 0
=============================================================================

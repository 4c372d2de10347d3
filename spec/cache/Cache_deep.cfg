SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3, 4}
 Vals = {0, 1}
 Limit = 2
 MaxBulk = 2
 Bug = "none"
INVARIANTS LastValue Answers StoredStays OnlyUnusedEvicted Bounded
CHECK_DEADLOCK FALSE

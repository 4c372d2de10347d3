SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3}
 Vals = {0, 1}
 Limit = 1
 MaxBulk = 2
 Bug = "evictUsed"
INVARIANTS LastValue Answers StoredStays OnlyUnusedEvicted Bounded
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Max = 6
 Vals = {0, 1, 2}
 Edge = 2
 Precision = 0
 Limit = 30
 Bug = "none"
INVARIANTS BestReturned BestKept ValuesTrue InBounds
CHECK_DEADLOCK FALSE

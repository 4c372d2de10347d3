SPECIFICATION Spec
CONSTANTS Max = 8
 Vals = {0, 1, 2, 4}
 Edge = 4
 Precision = 1
 Limit = 30
 Bug = "none"
INVARIANTS BestReturned BestKept ValuesTrue InBounds
CHECK_DEADLOCK FALSE

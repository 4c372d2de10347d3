SPECIFICATION Spec
CONSTANTS Max = 9
 Vals = {0, 1, 2}
 Edge = 4
 Precision = 0
 Limit = 30
 Bug = "none"
INVARIANTS BestReturned BestKept ValuesTrue InBounds
CHECK_DEADLOCK FALSE

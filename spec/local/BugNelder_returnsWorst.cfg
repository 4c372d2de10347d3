SPECIFICATION Spec
CONSTANTS Max = 6
 Vals = {0, 1, 4}
 Edge = 4
 Precision = 1
 Limit = 30
 Bug = "returnsWorst"
INVARIANTS BestReturned BestKept ValuesTrue InBounds
CHECK_DEADLOCK FALSE

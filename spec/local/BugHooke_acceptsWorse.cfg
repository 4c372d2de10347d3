SPECIFICATION Spec
CONSTANTS Dim = 1
 Max = 4
 Vals = {0, 1}
 H0 = 2
 Limit = 5
 Acc = 2
 Bug = "acceptsWorse"
INVARIANTS NotWorse Evaluated LocalOptimum
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Dim = 2
 Max = 2
 Vals = {0, 1, 2}
 H0 = 2
 Limit = 3
 Acc = 2
 Bug = "none"
INVARIANTS NotWorse Evaluated LocalOptimum
CHECK_DEADLOCK FALSE

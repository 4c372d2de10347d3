SPECIFICATION Spec
CONSTANTS Dim = 1
 Max = 8
 Vals = {0, 1, 2}
 H0 = 4
 Limit = 100
 Acc = 3
 Bug = "none"
INVARIANTS NotWorse Evaluated LocalOptimum
CHECK_DEADLOCK FALSE

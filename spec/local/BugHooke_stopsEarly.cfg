SPECIFICATION Spec
CONSTANTS Dim = 1
 Max = 6
 Vals = {0, 1, 2}
 H0 = 4
 Limit = 100
 Acc = 2
 Bug = "stopsEarly"
INVARIANTS NotWorse Evaluated LocalOptimum
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Dim = 1 Max = 7 Vals = {0,1,2,3} H0 = 1 Div = 2 A2 = 4 Prec = 0 Limit = 2 Bug = "oneMore"
INVARIANTS NotWorse LimitKept Stepped LocalOptimum Onward Based
PROPERTIES Falls Terminates
CHECK_DEADLOCK FALSE

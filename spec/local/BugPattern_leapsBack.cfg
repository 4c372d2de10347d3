SPECIFICATION Spec
CONSTANTS Dim = 1 Max = 4 Vals = {0,1,2} H0 = 2 Div = 2 A2 = 4 Prec = 1 Limit = 20 Bug = "leapsBack"
INVARIANTS NotWorse LimitKept Stepped LocalOptimum Onward Based
PROPERTIES Falls Terminates
CHECK_DEADLOCK FALSE

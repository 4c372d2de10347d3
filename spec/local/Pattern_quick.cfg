SPECIFICATION Spec
CONSTANTS Dim = 1 Max = 7 Vals = {0,1,2,3} H0 = 4 Div = 2 A2 = 4 Prec = 1 Limit = 20 Bug = ""
INVARIANTS NotWorse LimitKept Stepped LocalOptimum Onward Based
PROPERTIES Falls Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Dim = 3 Max = 2 Vals = {0,1} H0 = 2 Div = 2 A2 = 3 Prec = 2 Limit = 20 Bug = ""
INVARIANTS NotWorse LimitKept Stepped LocalOptimum Onward Based
PROPERTIES Falls Terminates
CHECK_DEADLOCK FALSE

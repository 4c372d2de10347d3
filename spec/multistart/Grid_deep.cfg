SPECIFICATION Spec
CONSTANTS MaxLow = 2 MaxHigh = 2 MaxStep = 3 MaxDim = 2 Vals = {0, 1, 2}
 Bug = "none"
INVARIANTS WholeGrid BestOfAll RefusedIffEmpty
PROPERTY Ends
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLow = 1 MaxHigh = 2 MaxStep = 2 MaxDim = 2 Vals = {0, 1}
 Bug = "none"
INVARIANTS WholeGrid BestOfAll RefusedIffEmpty
PROPERTY Ends
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLow = 1 MaxHigh = 2 MaxStep = 2 MaxDim = 2 Vals = {0, 1}
 Bug = "lastMissing"
INVARIANTS WholeGrid BestOfAll RefusedIffEmpty

CHECK_DEADLOCK FALSE

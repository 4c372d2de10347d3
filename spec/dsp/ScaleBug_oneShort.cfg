SPECIFICATION Spec
CONSTANTS MaxLimit = 5
 MaxCount = 6
 Bug = "oneShort"
INVARIANTS Ends Increasing Even Within Refusals
CHECK_DEADLOCK FALSE

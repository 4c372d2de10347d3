SPECIFICATION Spec
CONSTANTS MaxLimit = 16
 MaxCount = 16
 Bug = "none"
INVARIANTS Ends Increasing Even Within Refusals
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Max = 6
 Precision = 1
 Runs = 6
 Dim = 3
 Method = "steepest"
 Bug = "none"
INVARIANTS Law
PROPERTIES Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Max = 7
 Precision = 2
 Runs = 8
 Dim = 4
 Method = "steepest"
 Bug = "none"
INVARIANTS Law
PROPERTIES Terminates
CHECK_DEADLOCK FALSE

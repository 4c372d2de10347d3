SPECIFICATION Spec
CONSTANTS Max = 6
 Precision = 0
 Runs = 6
 Dim = 3
 Method = "conjugate"
 Bug = "none"
INVARIANTS Law
PROPERTIES Terminates
CHECK_DEADLOCK FALSE

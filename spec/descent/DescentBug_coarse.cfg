SPECIFICATION Spec
CONSTANTS Max = 5
 Precision = 1
 Runs = 5
 Dim = 3
 Method = "steepest"
 Bug = "coarse"
INVARIANTS Law

CHECK_DEADLOCK FALSE

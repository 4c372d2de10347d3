SPECIFICATION Spec
CONSTANTS Max = 7
 Precision = 1
 Runs = 9
 Dim = 4
 Method = "conjugate"
 Bug = "none"
INVARIANTS Law

CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Inv = 4
 D = 5
 G = 5
 Steps = 20
 Bug = "fullDivisor"
INVARIANTS Gap Between
CHECK_DEADLOCK FALSE

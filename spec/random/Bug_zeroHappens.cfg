SPECIFICATION Spec
CONSTANTS R = 31
 MaxRange = 9
 D = 5
 Bug = "zeroHappens"
INVARIANTS InRange Reachable Certain Share
CHECK_DEADLOCK FALSE

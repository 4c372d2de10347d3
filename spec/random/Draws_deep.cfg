SPECIFICATION Spec
CONSTANTS R = 255
 MaxRange = 60
 D = 20
 Bug = "none"
INVARIANTS InRange Reachable Certain Share
CHECK_DEADLOCK FALSE

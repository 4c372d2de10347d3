SPECIFICATION Spec
CONSTANTS N = 4
 W = 3
 Points = {1, 2, 3}
 Vals = {0, 1, 2}
 Bug = "none"
INVARIANTS ReturnsAnEnd ReturnsBest OneEach
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 3
 W = 2
 Points = {1, 2, 3}
 Vals = {0, 1}
 Bug = "skipsLast"
INVARIANTS ReturnsAnEnd ReturnsBest OneEach
CHECK_DEADLOCK FALSE

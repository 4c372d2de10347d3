SPECIFICATION Spec
CONSTANTS Dim = 1
 Lo = 0
 Hi = 3
 Out = 4
 Vals = {0, 1, 2}
 Iters = 5
 Cold = TRUE
 Bug = "none"
INVARIANTS Guarded Reported InBounds FromEvaluated ColdBest
PROPERTIES LastNotWorse 
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Dim = 2
 Lo = 0
 Hi = 1
 Out = 1
 Vals = {0, 1, 2}
 Iters = 4
 Cold = FALSE
 Bug = "none"
INVARIANTS Guarded Reported InBounds FromEvaluated ColdBest
PROPERTIES LastNotWorse 
CHECK_DEADLOCK FALSE

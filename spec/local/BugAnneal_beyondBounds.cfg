SPECIFICATION Spec
CONSTANTS Dim = 1
 Lo = 1
 Hi = 2
 Out = 3
 Vals = {0, 1, 2}
 Iters = 3
 Cold = TRUE
 Bug = "beyondBounds"
INVARIANTS Guarded Reported InBounds FromEvaluated ColdBest
PROPERTIES LastNotWorse 
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Dim = 1
 Lo = 0
 Hi = 2
 Out = 2
 Vals = {0, 1, 2}
 Iters = 4
 Cold = TRUE
 Bug = "none"
INVARIANTS Guarded Reported InBounds FromEvaluated ColdBest
PROPERTIES LastNotWorse Terminates
CHECK_DEADLOCK FALSE

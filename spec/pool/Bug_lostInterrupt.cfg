SPECIFICATION Spec
CONSTANTS
    Workers = {"w1", "w2"}
    MaxBatch = 1
    MaxTasks = 2
    MayFail = TRUE
    SpuriousBudget = 1
    Bug = "lostInterrupt"
INVARIANTS MutexOK ResultsInOrder NothingLeft NoWorkerAfterDestroy
PROPERTIES Refines BatchTerminates DestroyTerminates
CHECK_DEADLOCK FALSE

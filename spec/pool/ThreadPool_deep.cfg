SPECIFICATION Spec
CONSTANTS
    Workers = {"w1", "w2", "w3"}
    MaxBatch = 2
    MaxTasks = 2
    MayFail = TRUE
    SpuriousBudget = 1
    Bug = "none"
INVARIANTS MutexOK ResultsInOrder NothingLeft NoWorkerAfterDestroy
PROPERTIES Refines BatchTerminates DestroyTerminates
CHECK_DEADLOCK FALSE

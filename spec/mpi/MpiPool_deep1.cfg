SPECIFICATION Spec
CONSTANTS
    NW = 1
    MaxBatch = 2
    MaxTasks = 3
    ChainLen = 2
    Bug = "none"
INVARIANTS OneOutstanding InOrder
PROPERTIES Refines BatchTerminates CloseTerminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
    NW = 3
    MaxBatch = 2
    MaxTasks = 5
    ChainLen = 2
    Bug = "none"
INVARIANTS OneOutstanding InOrder
PROPERTIES Refines BatchTerminates CloseTerminates
CHECK_DEADLOCK FALSE

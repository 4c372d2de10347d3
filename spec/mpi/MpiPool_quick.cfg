SPECIFICATION Spec
CONSTANTS
    NW = 2
    MaxBatch = 2
    MaxTasks = 4
    ChainLen = 2
    Bug = "none"
INVARIANTS OneOutstanding InOrder
PROPERTIES Refines BatchTerminates CloseTerminates
CHECK_DEADLOCK FALSE

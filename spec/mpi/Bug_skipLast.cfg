SPECIFICATION Spec
CONSTANTS
    NW = 2
    MaxBatch = 1
    MaxTasks = 3
    ChainLen = 1
    Bug = "skipLast"
INVARIANTS OneOutstanding InOrder
PROPERTIES Refines BatchTerminates CloseTerminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
    NW = 2
    MaxBatch = 1
    MaxTasks = 4
    ChainLen = 1
    Bug = "wrongRank"
INVARIANTS OneOutstanding InOrder
PROPERTIES Refines BatchTerminates CloseTerminates
CHECK_DEADLOCK FALSE

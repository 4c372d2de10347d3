SPECIFICATION TSpec
INVARIANT OneOutstanding
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
    MaxWorkers = 0
    MaxBatch = 0
    MaxTasks = 0

SPECIFICATION Spec
CONSTANTS Threads = {"a", "b"}
 MaxObjects = 1
 Bug = "sharedBuffers"
INVARIANTS OneInPlanner OwnResult NoneStuck
CHECK_DEADLOCK FALSE

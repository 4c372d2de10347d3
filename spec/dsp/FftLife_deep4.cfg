SPECIFICATION Spec
CONSTANTS Threads = {"a", "b", "c", "d"}
 MaxObjects = 1
 Bug = "none"
INVARIANTS OneInPlanner OwnResult NoneStuck
CHECK_DEADLOCK FALSE

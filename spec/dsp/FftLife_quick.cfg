SPECIFICATION Spec
CONSTANTS Threads = {"a", "b"}
 MaxObjects = 2
 Bug = "none"
INVARIANTS OneInPlanner OwnResult NoneStuck
CHECK_DEADLOCK FALSE

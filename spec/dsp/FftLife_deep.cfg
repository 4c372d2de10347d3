SPECIFICATION Spec
CONSTANTS Threads = {"a", "b", "c"}
 MaxObjects = 2
 Bug = "none"
INVARIANTS OneInPlanner OwnResult NoneStuck
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS OneMpi BestValid MpiFirst
CHECK_DEADLOCK FALSE
CONSTANT Bug = "unchecked"

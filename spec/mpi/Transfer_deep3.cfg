SPECIFICATION Spec
CONSTANTS NW = 3
NT = 3
Bug = ""
INVARIANTS Typed PerformedAsGiven Right NothingLeft AllDone

CHECK_DEADLOCK FALSE

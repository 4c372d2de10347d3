SPECIFICATION Spec
CONSTANTS NW = 1
NT = 2
Bug = "notRead"
INVARIANTS Typed PerformedAsGiven Right NothingLeft AllDone

CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS NW = 2
NT = 2
Bug = "answersStart"
INVARIANTS Typed PerformedAsGiven Right NothingLeft AllDone

CHECK_DEADLOCK FALSE

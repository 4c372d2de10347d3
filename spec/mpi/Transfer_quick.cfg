SPECIFICATION Spec
CONSTANTS NW = 2
NT = 2
Bug = ""
INVARIANTS Typed PerformedAsGiven Right NothingLeft AllDone
PROPERTY Ends
CHECK_DEADLOCK FALSE

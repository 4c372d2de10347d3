SPECIFICATION Spec
CONSTANTS
    MaxCalls = 5
    Bug = "none"
INVARIANTS InOrderOnce NoOverlap LatchSound
CHECK_DEADLOCK FALSE

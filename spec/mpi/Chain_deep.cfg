SPECIFICATION Spec
CONSTANTS
    MaxCalls = 9
    Bug = "none"
INVARIANTS InOrderOnce NoOverlap LatchSound
CHECK_DEADLOCK FALSE

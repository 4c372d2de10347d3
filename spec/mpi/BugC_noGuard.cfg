SPECIFICATION Spec
CONSTANTS
    MaxCalls = 3
    Bug = "noGuard"
INVARIANTS InOrderOnce NoOverlap LatchSound
CHECK_DEADLOCK FALSE

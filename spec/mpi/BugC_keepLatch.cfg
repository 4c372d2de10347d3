SPECIFICATION Spec
CONSTANTS
    MaxCalls = 3
    Bug = "keepLatch"
INVARIANTS InOrderOnce NoOverlap LatchSound
CHECK_DEADLOCK FALSE

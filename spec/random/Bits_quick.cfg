SPECIFICATION Spec
CONSTANTS Bits = 15
 Batches = 3
 Bug = "none"
INVARIANTS Once AllBits
CHECK_DEADLOCK FALSE

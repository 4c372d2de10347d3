SPECIFICATION Spec
CONSTANTS Bits = 15
 Batches = 3
 Bug = "reusesBits"
INVARIANTS Once AllBits
CHECK_DEADLOCK FALSE

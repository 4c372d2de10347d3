SPECIFICATION Spec
CONSTANTS Names = {"a", "b"}
 Values = {"", "x"}
 MaxOps = 3
 SubNames = {"a", "b"}
 Bug = "none"
INVARIANTS LastWriteWins PrefixClosed
CHECK_DEADLOCK FALSE

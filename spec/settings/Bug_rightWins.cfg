SPECIFICATION Spec
CONSTANTS Names = {"a", "b"}
 Values = {"x", "y"}
 MaxOps = 2
 SubNames = {"a"}
 Bug = "rightWins"
INVARIANTS LastWriteWins PrefixClosed
CHECK_DEADLOCK FALSE

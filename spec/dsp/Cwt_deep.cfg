SPECIFICATION Spec
CONSTANTS MaxN = 6
 MaxLen = 7
 Values = {0, 1, 3}
 Bug = "none"
INVARIANTS InsideBuffer RowCount RowsRight Progress NoStep
CONSTRAINT Short
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxN = 4
 MaxLen = 5
 Values = {0, 1}
 Bug = "none"
PROPERTY Ends
INVARIANTS InsideBuffer RowCount RowsRight Progress NoStep
CHECK_DEADLOCK FALSE

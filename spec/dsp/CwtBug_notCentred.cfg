SPECIFICATION Spec
CONSTANTS MaxN = 3
 MaxLen = 4
 Values = {0, 1}
 Bug = "notCentred"
INVARIANTS InsideBuffer RowCount RowsRight Progress NoStep
CONSTRAINT Short
CHECK_DEADLOCK FALSE

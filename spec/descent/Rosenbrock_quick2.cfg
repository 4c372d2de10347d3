SPECIFICATION Spec
CONSTANTS First = 64
 Top = 32
 Precision = 4
 Limit = 5
 Vals = {0, 1, 2}
 Bug = "none"
INVARIANTS EndsWhereItGoes Law Chained NeverLonger InTime EndsRight
PROPERTIES Ends
CHECK_DEADLOCK FALSE

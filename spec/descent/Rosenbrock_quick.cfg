SPECIFICATION Spec
CONSTANTS First = 64
 Top = 96
 Precision = 8
 Limit = 6
 Vals = {0, 1}
 Bug = "none"
INVARIANTS EndsWhereItGoes Law Chained NeverLonger InTime EndsRight
PROPERTIES Ends
CHECK_DEADLOCK FALSE

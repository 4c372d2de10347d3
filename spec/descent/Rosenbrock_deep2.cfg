SPECIFICATION Spec
CONSTANTS First = 128
 Top = 288
 Precision = 4
 Limit = 6
 Vals = {0, 1, 2, 3}
 Bug = "none"
INVARIANTS EndsWhereItGoes Law Chained NeverLonger InTime EndsRight

CHECK_DEADLOCK FALSE

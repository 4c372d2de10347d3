SPECIFICATION Spec
CONSTANTS First = 256
 Top = 576
 Precision = 16
 Limit = 8
 Vals = {0, 1, 2}
 Bug = "none"
INVARIANTS EndsWhereItGoes Law Chained NeverLonger InTime EndsRight

CHECK_DEADLOCK FALSE

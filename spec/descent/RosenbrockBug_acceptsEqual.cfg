SPECIFICATION Spec
CONSTANTS First = 32
 Top = 48
 Precision = 4
 Limit = 5
 Vals = {0, 1}
 Bug = "acceptsEqual"
INVARIANTS EndsWhereItGoes Law Chained NeverLonger InTime EndsRight

CHECK_DEADLOCK FALSE

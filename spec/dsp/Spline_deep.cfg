SPECIFICATION Spec
CONSTANTS Knots = 6
 Values = {0, 1, 3}
 Bug = "none"
INVARIANTS ThroughKnots Lines Parabolas Mirror SlopesBetween LookUp
CHECK_DEADLOCK FALSE

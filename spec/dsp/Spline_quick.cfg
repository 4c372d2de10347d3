SPECIFICATION Spec
CONSTANTS Knots = 5
 Values = {0, 1, 2}
 Bug = "none"
INVARIANTS ThroughKnots Lines Parabolas Mirror SlopesBetween LookUp
CHECK_DEADLOCK FALSE

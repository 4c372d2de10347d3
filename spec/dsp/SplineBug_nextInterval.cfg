SPECIFICATION Spec
CONSTANTS Knots = 5
 Values = {0, 1}
 Bug = "nextInterval"
INVARIANTS ThroughKnots Lines Parabolas Mirror SlopesBetween LookUp
CHECK_DEADLOCK FALSE

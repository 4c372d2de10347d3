SPECIFICATION Spec
CONSTANTS Reach = 200
 Bug = "notConjugate"
INVARIANTS ZeroMean UnitEnergy Even Shape Conjugate Modulus MorletMean
CHECK_DEADLOCK FALSE

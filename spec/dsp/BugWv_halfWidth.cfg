SPECIFICATION Spec
CONSTANTS Reach = 200
 Bug = "halfWidth"
INVARIANTS ZeroMean UnitEnergy Even Shape Conjugate Modulus MorletMean
CHECK_DEADLOCK FALSE

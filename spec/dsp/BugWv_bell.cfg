SPECIFICATION Spec
CONSTANTS Reach = 200
 Bug = "bell"
INVARIANTS ZeroMean UnitEnergy Even Shape Conjugate Modulus MorletMean
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS L = 3
 N = 2
 Elite = 0
 MaxGen = 3
 Crit = 1
 Top = 1
 Runs = 1
 UseCache = TRUE
 Bug = "none"
INVARIANTS FitnessIsCurrent BestIsMaximum AllValid Inherit ShownOnce StopsRight


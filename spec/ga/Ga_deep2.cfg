SPECIFICATION Spec
CONSTANTS L = 2
 N = 4
 Elite = 1
 MaxGen = 2
 Crit = 3
 Top = 2
 Runs = 1
 UseCache = TRUE
 Bug = "none"
INVARIANTS FitnessIsCurrent BestIsMaximum AllValid Inherit ShownOnce StopsRight


SPECIFICATION Spec
CONSTANTS L = 2
 N = 4
 Elite = 1
 MaxGen = 2
 Crit = 1
 Top = 1
 Runs = 1
 UseCache = FALSE
 Bug = "none"
INVARIANTS FitnessIsCurrent BestIsMaximum AllValid Inherit ShownOnce StopsRight


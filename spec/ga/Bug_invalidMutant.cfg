SPECIFICATION Spec
CONSTANTS L = 2
 N = 2
 Elite = 0
 MaxGen = 2
 Crit = 9
 Top = 1
 Runs = 1
 UseCache = TRUE
 Bug = "invalidMutant"
INVARIANTS FitnessIsCurrent BestIsMaximum AllValid Inherit ShownOnce StopsRight


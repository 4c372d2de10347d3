SPECIFICATION Spec
CONSTANTS L = 2
 N = 2
 Elite = 1
 MaxGen = 1
 Crit = 9
 Top = 1
 Runs = 2
 UseCache = TRUE
 Bug = "staleCache"
INVARIANTS FitnessIsCurrent BestIsMaximum AllValid Inherit ShownOnce StopsRight


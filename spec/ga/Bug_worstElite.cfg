SPECIFICATION Spec
CONSTANTS L = 2
 N = 4
 Elite = 1
 MaxGen = 2
 Crit = 9
 Top = 1
 Runs = 1
 UseCache = TRUE
 Bug = "worstElite"
INVARIANTS FitnessIsCurrent BestIsMaximum AllValid Inherit ShownOnce StopsRight


SPECIFICATION Spec
CONSTANTS L = 2
 N = 2
 Elite = 0
 MaxGen = 2
 Crit = 1
 Top = 1
 Runs = 1
 UseCache = TRUE
 Bug = "lateStop"
INVARIANTS FitnessIsCurrent BestIsMaximum AllValid Inherit ShownOnce StopsRight


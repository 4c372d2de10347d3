SPECIFICATION Spec
CONSTANTS L = 2
 N = 2
 Elite = 0
 MaxGen = 2
 Crit = 2
 Top = 2
 Runs = 1
 UseCache = TRUE
 Bug = "none"
INVARIANTS FitnessIsCurrent BestIsMaximum AllValid Inherit ShownOnce StopsRight
PROPERTY Terminates

SPECIFICATION Spec
CONSTANTS L = 2
 N = 2
 Elite = 1
 MaxGen = 2
 Crit = 2
 Top = 1
 Runs = 2
 UseCache = TRUE
 Bug = "none"
INVARIANTS FitnessIsCurrent BestIsMaximum AllValid Inherit ShownOnce StopsRight
PROPERTY Terminates

SPECIFICATION Spec
CONSTANTS N = 3
 Top = 3
 Pairs = 2
 Retries = 1
 Gens = 2
 Bug = "rejectedUncounted"
INVARIANTS InProportion ShownTrue

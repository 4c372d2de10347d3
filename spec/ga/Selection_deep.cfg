SPECIFICATION Spec
CONSTANTS N = 4
 Top = 3
 Pairs = 2
 Retries = 2
 Gens = 2
 Bug = "none"
INVARIANTS InProportion ShownTrue

SPECIFICATION Spec
CONSTANTS Lo = 0 Hi = 16 Vals = {0,1,2} Side = 8 Limit = 2 Bug = "alwaysExpands"
INVARIANTS ValuesTrue BestKept BestReturned InBounds
PROPERTIES WorstGoes Shrinks Terminates
CHECK_DEADLOCK FALSE

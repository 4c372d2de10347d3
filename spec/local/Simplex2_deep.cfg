SPECIFICATION Spec
CONSTANTS Lo = 0 Hi = 24 Vals = {0,1,2} Side = 8 Limit = 3 Bug = ""
INVARIANTS ValuesTrue BestKept BestReturned InBounds
PROPERTIES WorstGoes Shrinks Terminates
CHECK_DEADLOCK FALSE

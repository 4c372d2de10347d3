SPECIFICATION Spec
CONSTANTS Lo = 0 Hi = 48 Vals = {0,1} Side = 16 Limit = 7 Bug = ""
INVARIANTS ValuesTrue BestKept BestReturned InBounds
PROPERTIES WorstGoes Shrinks Terminates
CHECK_DEADLOCK FALSE

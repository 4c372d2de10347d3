SPECIFICATION Spec
INVARIANT ArraysInside
PROPERTIES RefusalFrame OthersFrame OnceInit
CHECK_DEADLOCK FALSE
CONSTANTS Ids = {1,2,3}
 Hi = 2
 Vals0 = {0,1,4}
 Bug = "refusalWrites"

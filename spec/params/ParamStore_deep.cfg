SPECIFICATION Spec
INVARIANT ArraysInside
PROPERTIES RefusalFrame OthersFrame OnceInit
CHECK_DEADLOCK FALSE
CONSTANTS Ids = {1,2,3}
 Hi = 3
 Vals0 = {0,1,3,5}
 Bug = "none"

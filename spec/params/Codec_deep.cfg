SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS MaxSpan = 70
 Mins0 = {1,4,9,104}
 Spans = {1,2,3,5,7,8,9,16,17,31,32,33,64}
 Precs = {1,2,3,4,5}
 Fine = 16
 Bug = "none"

SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS MaxSpan = 20
 Mins0 = {1,4,9}
 Spans = {1,2,3,5,8,9}
 Precs = {1,2,3,4}
 Fine = 8
 Bug = "none"

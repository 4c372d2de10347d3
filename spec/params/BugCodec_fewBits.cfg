SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS MaxSpan = 8
 Mins0 = {1,4}
 Spans = {1,3,8}
 Precs = {1,2}
 Fine = 8
 Bug = "fewBits"

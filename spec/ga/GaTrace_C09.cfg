SPECIFICATION TSpec
CONSTANT Checks = {"C09"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANT Checks = {"C08"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

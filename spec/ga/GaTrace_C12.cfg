SPECIFICATION TSpec
CONSTANT Checks = {"C12"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

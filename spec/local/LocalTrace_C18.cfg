SPECIFICATION TSpec
CONSTANT Checks = {"C18"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

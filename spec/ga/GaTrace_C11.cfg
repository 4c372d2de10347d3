SPECIFICATION TSpec
CONSTANT Checks = {"C11"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANT Checks = {"C21"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

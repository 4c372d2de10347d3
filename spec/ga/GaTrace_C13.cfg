SPECIFICATION TSpec
CONSTANT Checks = {"C13"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

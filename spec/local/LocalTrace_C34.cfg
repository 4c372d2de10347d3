SPECIFICATION TSpec
CONSTANT Checks = {"C34"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

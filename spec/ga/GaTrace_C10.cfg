SPECIFICATION TSpec
CONSTANT Checks = {"C10"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANT Checks = {"C35"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

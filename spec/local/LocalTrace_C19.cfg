SPECIFICATION TSpec
CONSTANT Checks = {"C19"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANT Checks = {"C28"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

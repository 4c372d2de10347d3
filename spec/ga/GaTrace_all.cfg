SPECIFICATION TSpec
CONSTANT Checks = {"C08","C09","C10","C11","C12","C13","C21","C35"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

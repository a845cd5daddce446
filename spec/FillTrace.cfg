SPECIFICATION TraceSpec
CONSTANTS NAN = 2000000000
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION GSpec
CONSTANTS N = 5 MaxT = 5 Cpus = 2 NoThread = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE

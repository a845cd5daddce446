SPECIFICATION GSpec
CONSTANTS N = 4 MaxT = 4 Cpus = 2 NoThread = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE

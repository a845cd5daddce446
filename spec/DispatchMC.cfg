SPECIFICATION Spec
CONSTANTS N = 4 MaxT = 5 Cpus = 3 NoThread = TRUE
INVARIANTS AtMostOnce NoFailureProcessed CompleteResult ErrorReported AllJoined Deterministic NoIdleThread
PROPERTIES Implements Terminates
CHECK_DEADLOCK FALSE

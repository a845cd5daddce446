SPECIFICATION Spec
CONSTANTS N = 5 MaxT = 6 Cpus = 0 NoThread = TRUE
INVARIANTS AtMostOnce NoFailureProcessed CompleteResult ErrorReported AllJoined Deterministic NoIdleThread
PROPERTIES Implements Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANTS Depth = 4 Xs = {1, 13} Caps = {1, 2, 3}
INVARIANTS OnceEach Own Bins
CHECK_DEADLOCK FALSE

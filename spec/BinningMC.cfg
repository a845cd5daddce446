SPECIFICATION MSpec
CONSTANTS Depth = 2 Xs = {1, 5, 13, 17} Ys = {0, 1, 5}
INVARIANTS History Conserved Nodes
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANTS Depth = 3 Xs = {1, 13} Ys = {1}
INVARIANTS History Conserved Nodes
CHECK_DEADLOCK FALSE

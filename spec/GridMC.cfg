SPECIFICATION MSpec
CONSTANTS Sizes = {1, 2, 3}
INVARIANT Shaped Same Pairing Ranks Upward Involution
CHECK_DEADLOCK FALSE

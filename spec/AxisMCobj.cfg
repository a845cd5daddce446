SPECIFICATION Spec
CONSTANTS MaxV = 2 MaxN = 3 Period = 3 Slots = 2
INVARIANTS WellFormed FlipInvolutive FlipLookup
CHECK_DEADLOCK FALSE

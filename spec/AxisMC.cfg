SPECIFICATION Spec
CONSTANTS MaxV = 5 MaxN = 4 Period = 6 Slots = 1
INVARIANTS WellFormed FlipInvolutive FlipLookup FlipBracket Total NearestInBracket CircleTotal Periodic WindowSound
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxT = 4 MaxN = 2
INVARIANTS AlwaysSorted Meaning PairMeaning
CHECK_DEADLOCK FALSE

INIT InitTrees
NEXT NoStep
INVARIANT NegraOrder
INVARIANT NegraDamage
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 3
MaxN = 3
MaxL = 0

INIT InitTrees
NEXT NoStep
INVARIANT BracketInverse
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 4
MaxN = 4
MaxL = 0

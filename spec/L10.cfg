INIT InitTrees
NEXT NoStep
INVARIANT FilterLaws
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 4
MaxN = 3
MaxL = 0

INIT InitTrees
NEXT NoStep
INVARIANT RowsInverse
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 5
MaxN = 4
MaxL = 0

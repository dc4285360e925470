INIT InitTrees
NEXT NoStep
INVARIANT InsertLaws
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 4
MaxN = 3
MaxL = 0

INIT InitLines
NEXT GrowLines
INVARIANT LineLaws
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 1
MaxN = 1
MaxL = 5

INIT InitTags
NEXT GrowTags
INVARIANT TagLaws
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 1
MaxN = 1
MaxL = 4

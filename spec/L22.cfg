INIT InitFeats
NEXT NoStep
INVARIANT FeatLaws
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 1
MaxN = 1
MaxL = 1

INIT InitPairs
NEXT NoStep
INVARIANT EqualityLaw
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 4
MaxN = 3
MaxL = 0

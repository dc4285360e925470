INIT InitPairs
NEXT NoStep
INVARIANT EqualityLaw
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 3
MaxN = 2
MaxL = 0

INIT InitTexts
NEXT GrowTexts
INVARIANT ReaderLaws
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 1
MaxN = 1
MaxL = 5

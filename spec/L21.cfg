INIT InitSpans
NEXT NoStep
INVARIANT SpanOrder
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 1
MaxN = 1
MaxL = 4

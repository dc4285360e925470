SPECIFICATION Spec
INVARIANT LastWritten
INVARIANT Frame
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 2
MaxN = 1
Keys = {"a"}

SPECIFICATION Spec
INVARIANT LastWritten
INVARIANT Frame
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 1
MaxN = 1
Keys = {"a"}

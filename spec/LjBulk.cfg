SPECIFICATION Spec
VIEW View
INVARIANT Inv
INVARIANT ErrorsNecessary
PROPERTY Steps
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 4
MaxN = 3
MaxSec = 0
Family = {"filter", "insint", "reterm", "project"}

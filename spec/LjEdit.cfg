SPECIFICATION Spec
VIEW View
INVARIANT Inv
INVARIANT ErrorsNecessary
PROPERTY Steps
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 3
MaxN = 3
MaxSec = 1
Family = {"token", "struct", "sec", "reject"}

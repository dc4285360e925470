SPECIFICATION SpecB
INVARIANT InvB
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 4
MaxN = 3
MaxSec = 4
Family = {}

SPECIFICATION CSpec
VIEW CacheView
INVARIANT CacheInv
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 5
MaxN = 4
MaxSec = 0
Family = {"token", "struct", "filter", "project"}

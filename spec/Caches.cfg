SPECIFICATION CSpec
VIEW CacheView
INVARIANT CacheInv
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 4
MaxN = 3
MaxSec = 0
Family = {"token", "struct", "filter", "project"}

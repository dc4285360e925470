SPECIFICATION Spec
INVARIANT Progress
INVARIANT Sound
INVARIANT Downwards
INVARIANT Agrees
PROPERTY Fills
PROPERTY Deepens
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS MaxT = 5
MaxN = 4

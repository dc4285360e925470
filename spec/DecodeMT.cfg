SPECIFICATION Spec
INVARIANT Total
INVARIANT Denotes
INVARIANT Frontier
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 6
MaxNum = 4
Labels = {"A"}

SPECIFICATION Spec
INVARIANT Total
INVARIANT Denotes
INVARIANT Frontier
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 4
MaxNum = 3
Labels = {"A", "B_C"}

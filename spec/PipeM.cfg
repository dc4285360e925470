SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Sound NoDummies StaysProjective Marks Tagged Reattached Numbered IdsBeforeFilter Filtered Inserted Parents Encoded Untouched Fails Composed
CONSTANTS MaxT = 3
MaxN = 2
Formats = {"absolute", "negra", "simple"}

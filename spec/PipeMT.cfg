SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Sound NoDummies StaysProjective Marks Tagged Reattached Numbered IdsBeforeFilter Filtered Inserted Parents Encoded Untouched Fails Composed
CONSTANTS MaxT = 4
MaxN = 3
Formats = {"absolute", "negra", "simple"}

INIT GenInit
NEXT GenNext
CONSTANTS Names = {"a", "b"}
 Vals = {0, 1}
INVARIANT Emit
CHECK_DEADLOCK FALSE

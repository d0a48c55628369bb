SPECIFICATION Spec
CONSTANTS Names = {"a", "b"}
 Vals = {0, 1}
INVARIANT Faithful
CHECK_DEADLOCK FALSE

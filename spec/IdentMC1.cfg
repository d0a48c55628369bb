SPECIFICATION Spec
CONSTANTS Names = {"a", "b"}
 Vals = {1}
INVARIANT Faithful
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS Window = 100
 Sids = {"a", "b", "A"}
 Numbers_ = {1, 2, 3, 4, 5, 6}
 Steps = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE

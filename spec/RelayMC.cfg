SPECIFICATION Spec
CONSTANTS Window = 2
 Sids = {"a", "b"}
 Numbers_ = {1, 2, 3}
 Steps = 6
INVARIANTS InOrder Exactly All Independent
CHECK_DEADLOCK FALSE

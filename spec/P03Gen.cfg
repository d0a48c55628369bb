INIT Init
NEXT Next
CONSTANTS Window = 100
 Sids = {"a", "b", "c"}
 Numbers_ = {1, 2, 3, 4, 5, 6, 7}
 Groups = {"g"}
 Tokens = {1, 2, 3, 4}
 Params = {"utc"}
 Steps = 9
INVARIANT Emit
CHECK_DEADLOCK FALSE

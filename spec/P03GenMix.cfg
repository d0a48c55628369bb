INIT Init
NEXT Next
CONSTANTS Window = 100
 Sids = {"a", "b", "c"}
 Numbers_ = {1, 2, 3}
 Groups = {"", "g", "h"}
 Tokens = {0, 1, 2, 3}
 Params = {"utc", "local", "media"}
 Steps = 9
INVARIANT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Window = 100
 Sids = {"a", "b"}
 Numbers_ = {1, 2}
 Groups = {"", "g", "h"}
 Tokens = {0, 1, 2}
 Params = {"utc"}
 Steps = 4
INVARIANTS Consecutive InOrder Exactly TokenIsLast OnlyHolderLowers
CHECK_DEADLOCK FALSE

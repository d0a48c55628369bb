SPECIFICATION Spec
CONSTANTS Window = 100
 Sids = {"a", "b", "c"}
 Numbers_ = {1, 2, 3, 4}
 Groups = {"g"}
 Tokens = {1, 2, 3}
 Params = {"utc"}
 Steps = 3
INVARIANTS Consecutive InOrder Exactly TokenIsLast OnlyHolderLowers
CHECK_DEADLOCK FALSE

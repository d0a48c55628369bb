SPECIFICATION Spec
CONSTANTS Window = 100
 Sids = {"a", "b", "OUT"}
 Numbers_ = {1, 2}
 Kinds = {"consume", "resequence", "retime", "dedup", "encode"}
 Steps = 5
INVARIANTS OneSequence RefusedOnlyIfForeign NoEffect
CHECK_DEADLOCK FALSE

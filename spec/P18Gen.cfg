INIT Init
NEXT Next
CONSTANTS Window = 100
 Sids = {"a", "b", "OUT"}
 Numbers_ = {1, 2, 3, 4}
 Kinds = {"consume", "resequence", "retime", "dedup", "encode"}
 Steps = 7
INVARIANT Emit
CHECK_DEADLOCK FALSE

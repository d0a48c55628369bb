SPECIFICATION Spec
CONSTANTS MaxDocs = 4
 MaxTime = 3
INVARIANTS Consistent Sorted HeldAgree AlgorithmFollowsRule RangesAgree EndsAgree AtMostOne
CHECK_DEADLOCK FALSE

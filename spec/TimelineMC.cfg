SPECIFICATION Spec
CONSTANTS MaxDocs = 3
 MaxTime = 4
INVARIANTS Consistent Sorted HeldAgree AlgorithmFollowsRule RangesAgree EndsAgree AtMostOne
CHECK_DEADLOCK FALSE

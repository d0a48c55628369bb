INIT GInit
NEXT GNext
CONSTANTS MaxDocs = 6
 MaxTime = 5
 Steps = 5
 Variants = {"ok"}
INVARIANT Emit
CHECK_DEADLOCK FALSE

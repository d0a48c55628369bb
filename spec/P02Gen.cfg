INIT GInit
NEXT GNext
CONSTANTS MaxDocs = 4
 MaxTime = 4
 Steps = 6
 Variants = {"ok", "sid", "tb", "cm", "group"}
INVARIANT Emit
CHECK_DEADLOCK FALSE

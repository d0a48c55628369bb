INIT GenInit
NEXT GenNext
CONSTANTS Fonts = {""}
 NoVal = NoVal
 Mutant = "none"
INVARIANT Emit
CHECK_DEADLOCK FALSE

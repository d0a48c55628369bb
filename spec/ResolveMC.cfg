SPECIFICATION Spec
CONSTANTS Fonts = {"", "50%", "2c"}
 NoVal = NoVal
 Mutant = "none"
INVARIANT Computes
CHECK_DEADLOCK FALSE

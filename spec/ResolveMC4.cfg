SPECIFICATION Spec
CONSTANTS Fonts = {"", "50%", "200%", "2c"}
 NoVal = NoVal
 Mutant = "none"
INVARIANT Computes
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxNodes = 4
 Times = {0, 2}
 Delays = {1}
 MaxDepth = 5
 Mixed = TRUE
 Mutant = "none"
INVARIANT Shifts Adds
CHECK_DEADLOCK FALSE

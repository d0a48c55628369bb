INIT Init
NEXT GenNext
CONSTANTS MaxNodes = 8
 Times = {0, 1000, 2000, 3000}
 Delays = {1000}
 MaxDepth = 6
 Mixed = TRUE
 Mutant = "none"
INVARIANT Emit
CHECK_DEADLOCK FALSE

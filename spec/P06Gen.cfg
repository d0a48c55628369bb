INIT Init
NEXT Next
CONSTANTS MaxNodes = 9
 Times = {0, 2000, 3500, 5000}
 Avails = {0, 1000, 4000}
 MaxDepth = 6
 Windows = {}
 Mixed = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE

INIT Init
NEXT GenNext
CONSTANTS MaxNodes = 8
 Times = {0, 2000, 5000, 5500, 9000}
 Avails = {0, 1000, 4000}
 MaxDepth = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE

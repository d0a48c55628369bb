INIT Init
NEXT GenNext
CONSTANTS MaxN = 5
 MaxT = 8
 Lens = {1, 2, 3}
 MaxDocs = 6
 MaxWin = 6
 Discards = {TRUE, FALSE}
INVARIANT Emit
CHECK_DEADLOCK FALSE

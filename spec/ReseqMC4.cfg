SPECIFICATION Spec
CONSTANTS MaxN = 3
 MaxT = 4
 Lens = {1, 2}
 MaxDocs = 3
 MaxWin = 3
 Discards = {TRUE, FALSE}
VIEW View
INVARIANT NoChange
CHECK_DEADLOCK FALSE

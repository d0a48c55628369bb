SPECIFICATION Spec
CONSTANTS MaxN = 3
 MaxT = 3
 Lens = {1, 2}
 MaxDocs = 3
 MaxWin = 2
 Discards = {TRUE, FALSE}
VIEW View
INVARIANT NoChange
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxN = 3
 MaxT = 3
 Lens = {1}
 MaxDocs = 4
 MaxWin = 3
 Discards = {TRUE, FALSE}
VIEW View
INVARIANT NoChange
CHECK_DEADLOCK FALSE

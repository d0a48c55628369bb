SPECIFICATION Spec
CONSTANTS MaxNodes = 5
 Times = {1, 2}
 Avails = {0, 1}
 MaxDepth = 5
 Windows = {0, 1, 2, 3}
 Mixed = TRUE
INVARIANTS Faithful Twice
CHECK_DEADLOCK FALSE

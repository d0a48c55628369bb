SPECIFICATION Spec
CONSTANTS MaxNodes = 5
 Times = {1}
 Avails = {0}
 MaxDepth = 5
 Windows = {0, 1, 2}
 Mixed = TRUE
INVARIANTS Faithful Twice
CHECK_DEADLOCK FALSE

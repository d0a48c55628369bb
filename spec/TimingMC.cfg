SPECIFICATION Spec
CONSTANTS MaxNodes = 3
 Times = {0, 1, 2}
 Avails = {0, 1}
 MaxDepth = 4
INVARIANTS Agrees Sane
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxNodes = 5
 Times = {1, 3}
 Avails = {1}
 MaxDepth = 4
INVARIANTS Agrees Sane
CHECK_DEADLOCK FALSE

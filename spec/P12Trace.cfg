SPECIFICATION Spec
CONSTANT NoVal = NoVal
CHECK_DEADLOCK FALSE

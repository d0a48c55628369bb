SPECIFICATION Spec
CONSTANT Window = 100
CHECK_DEADLOCK FALSE

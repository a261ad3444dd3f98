CONSTANTS N = 7 Careful = FALSE
SPECIFICATION Spec
INVARIANTS Right
CHECK_DEADLOCK FALSE

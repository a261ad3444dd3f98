CONSTANTS N = 7 Careful = TRUE
SPECIFICATION Spec
INVARIANTS Right Safe
CHECK_DEADLOCK FALSE

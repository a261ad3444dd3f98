CONSTANTS N = 12 Careful = TRUE
SPECIFICATION Spec
INVARIANTS Right Safe
CHECK_DEADLOCK FALSE

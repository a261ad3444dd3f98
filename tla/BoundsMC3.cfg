CONSTANTS W = 11 Careful = TRUE
INIT Init
NEXT Next
INVARIANT Exact
CHECK_DEADLOCK FALSE

CONSTANTS W = 6 Careful = TRUE
INIT Init
NEXT Next
INVARIANT Exact
CHECK_DEADLOCK FALSE

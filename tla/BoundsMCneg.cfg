CONSTANTS W = 6 Careful = FALSE
INIT Init
NEXT Next
INVARIANT Exact
CHECK_DEADLOCK FALSE

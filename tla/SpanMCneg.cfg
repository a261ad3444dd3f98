CONSTANTS MaxX = 5 MaxY = 2
INIT Init
NEXT Next
INVARIANTS AnyLength
CHECK_DEADLOCK FALSE

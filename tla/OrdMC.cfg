CONSTANTS Links = 3
 Broken = 0
INIT Init
NEXT Next
INVARIANT Laws Strong
CHECK_DEADLOCK FALSE

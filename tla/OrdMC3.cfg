CONSTANTS Links = 4
 Broken = 0
INIT Init
NEXT Next
INVARIANT Laws Strong
CHECK_DEADLOCK FALSE

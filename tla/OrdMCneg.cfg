CONSTANTS Links = 2
 Broken = 1
INIT Init
NEXT Next
INVARIANT Laws Strong
CHECK_DEADLOCK FALSE

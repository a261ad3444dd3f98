CONSTANTS Cells = 10
 Cookie = 2
 Broken = 1
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE

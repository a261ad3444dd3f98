CONSTANTS Cells = 8
 Cookie = 2
 Broken = 0
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE

CONSTANTS Cells = 5
 Cookie = 0
 Broken = 0
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE

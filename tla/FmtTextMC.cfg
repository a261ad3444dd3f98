CONSTANTS MaxLen = 3
 Widths = {0, 5}
 Broken = 0
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE

CONSTANTS MaxLen = 1
 Widths = {0, 5}
 Broken = 1
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE

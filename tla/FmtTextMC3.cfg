CONSTANTS MaxLen = 5
 Widths = {0, 1, 2, 3, 5, 8, 20, 66}
 Broken = 0
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE

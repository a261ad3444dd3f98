CONSTANTS MaxLen = 4
 Broken = 0
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE

CONSTANTS MaxLen = 3
 Broken = 0
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE

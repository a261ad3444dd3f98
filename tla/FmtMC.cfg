CONSTANTS MaxLen = 6
 Alphabet = {123, 125, 58, 48, 62, 33, 46}
 Broken = 0
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE

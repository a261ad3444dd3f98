CONSTANTS MaxLen = 7
 Alphabet = {123, 125, 58, 48, 55, 62, 35, 46, 120}
 Broken = 0
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE

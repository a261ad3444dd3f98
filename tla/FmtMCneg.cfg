CONSTANTS MaxLen = 6
 Alphabet = {123, 125}
 Broken = 1
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS
  MaxLen = 5
  MaxComps = 4
  Broken = FALSE
CHECK_DEADLOCK FALSE

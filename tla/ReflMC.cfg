INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS
  MaxLen = 4
  MaxComps = 3
  Broken = FALSE
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS
  MaxLen = 4
  MaxComps = 1
  Broken = TRUE
CHECK_DEADLOCK FALSE

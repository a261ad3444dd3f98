INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS
  Srcs = {0}
  Values <- TwoValues
  MaxSteps = 1
  MaxHeld = 1
  Eager = TRUE
CHECK_DEADLOCK FALSE

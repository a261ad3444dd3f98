INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS
  Srcs = {0, 3, 5, 10}
  Values <- TwoValues
  MaxSteps = 2
  MaxHeld = 2
  Eager = FALSE
CHECK_DEADLOCK FALSE

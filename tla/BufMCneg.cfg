INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
E = 0 Regs = 2 Max = 2 Emit = FALSE Mutant = TRUE
INVARIANT Holds

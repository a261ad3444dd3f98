INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
E = 2 Regs = 2 Max = 1 Emit = TRUE Mutant = FALSE
INVARIANT Holds

INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
E = 4 Regs = 2 Max = 1 Emit = TRUE Mutant = FALSE
INVARIANT Holds

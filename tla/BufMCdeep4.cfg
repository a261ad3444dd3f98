INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
E = 4 Regs = 2 Max = 3 Emit = FALSE Mutant = FALSE
INVARIANT Holds

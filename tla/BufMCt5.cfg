INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
E = 5 Regs = 2 Max = 2 Emit = FALSE Mutant = FALSE
INVARIANT Holds

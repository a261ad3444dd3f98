INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
Regs = 3 Vals = {1} Emit = FALSE Mutant = FALSE MaxHeld = 2
INVARIANT Exact

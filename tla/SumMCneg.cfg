INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
Regs = 2 Vals = {1, 2} Emit = FALSE Mutant = TRUE MaxHeld = 2
INVARIANT Exact

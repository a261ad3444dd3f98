INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
Regs = 2 Vals = {1, 2} Emit = TRUE Mutant = FALSE MaxHeld = 2
INVARIANT Exact

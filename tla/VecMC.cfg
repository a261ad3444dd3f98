INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
Regs = 1 Vals = {1, 2} MaxLen = 4 Inl = 2 Als = {1} Shape = 1 Emit = TRUE Mutant = FALSE
INVARIANT Laws
INVARIANT Compare
INVARIANT Refines

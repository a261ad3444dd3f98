INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
Regs = 2 Vals = {1} MaxLen = 3 Inl = 1 Als = {1, 2} Shape = 2 Emit = TRUE Mutant = FALSE
INVARIANT Laws
INVARIANT Compare
INVARIANT Refines

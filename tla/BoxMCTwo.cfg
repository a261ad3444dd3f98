INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
Regs = 2 Vals = {1, 2} Tys = {0} Shape = "two" Als = {1,2} Copies = TRUE Emit = TRUE Mutant = FALSE
Ops = {"new", "wrap", "try", "try"}
INVARIANT Owned

INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
Regs = 2 Vals = {1, 2} Tys = {0} Shape = "arr" Als = {1} Copies = TRUE Emit = TRUE Mutant = FALSE
Ops = {"new", "wrap", "try"}
INVARIANT Owned

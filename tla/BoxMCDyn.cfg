INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
Regs = 2 Vals = {1, 2} Tys = {0,1,2,3} Shape = "one" Als = {1} Copies = FALSE Emit = TRUE Mutant = FALSE
Ops = {"new", "wrap", "try"}
INVARIANT Owned

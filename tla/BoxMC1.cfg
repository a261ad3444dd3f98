INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
Regs = 2 Vals = {1, 2} Tys = {0} Shape = "one" Als = {1,2} Copies = TRUE Emit = TRUE Mutant = FALSE
Ops = {"new", "wrap", "try", "take"}
INVARIANT Owned

INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
Regs = 3 Vals = {1, 2} Tys = {0} Shape = "one" Als = {1} Copies = TRUE Emit = FALSE Mutant = FALSE
Ops = {"new", "wrap", "try", "take"}
INVARIANT Owned

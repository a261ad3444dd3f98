INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxLayers = 1 Lens = {3} Emit = FALSE Mutant = TRUE
INVARIANT Pieces
INVARIANT Same
INVARIANT Stays
CONSTRAINT Constraint

INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxLayers = 2 Lens = {0,1,2,3} Emit = FALSE Mutant = FALSE
INVARIANT Pieces
INVARIANT Same
INVARIANT Stays
CONSTRAINT Constraint

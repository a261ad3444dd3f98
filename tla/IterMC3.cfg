INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxLayers = 3 Lens = {0,1,2,3,4} Emit = FALSE Mutant = FALSE
INVARIANT Pieces
INVARIANT Same
INVARIANT Stays
CONSTRAINT Constraint

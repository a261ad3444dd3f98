INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
Part = "acts" Kinds = {1, 2, 3, 4, 5, 6, 7, 8} Slots = {} Defers = {0, 1, 2} Xs = {} Lim = 0
Objs = {} Boxes = {} Emit = FALSE Mutant = FALSE
INVARIANTS Once Ends
PROPERTY Closed

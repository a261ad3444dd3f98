INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
Part = "acts" Kinds = {1, 6} Slots = {} Defers = {0, 1} Xs = {} Lim = 0
Objs = {} Boxes = {} Emit = FALSE Mutant = TRUE
INVARIANTS Once

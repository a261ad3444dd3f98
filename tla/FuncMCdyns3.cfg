INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
Part = "dyns" Kinds = {} Slots = {} Defers = {} Xs = {2} Lim = 3
Objs = {1, 2, 3} Boxes = {0} Emit = FALSE Mutant = FALSE
INVARIANTS Ways

INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
Part = "dyns" Kinds = {} Slots = {} Defers = {} Xs = {2} Lim = 4
Objs = {3} Boxes = {0} Emit = TRUE Mutant = FALSE
INVARIANTS Ways

INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
Part = "refs" Kinds = {1, 2, 4, 5, 6, 7, 11} Slots = {0, 1, 2, 3} Defers = {} Xs = {1} Lim = 1
Objs = {} Boxes = {} Emit = FALSE Mutant = FALSE
INVARIANTS Alike Own

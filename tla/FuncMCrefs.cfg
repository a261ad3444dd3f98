INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
Part = "refs" Kinds = {1, 2, 5, 6, 7, 8, 11} Slots = {0, 2} Defers = {} Xs = {1} Lim = 1
Objs = {} Boxes = {} Emit = TRUE Mutant = FALSE
INVARIANTS Alike Own

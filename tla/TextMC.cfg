CONSTANT MaxLen = 2
INIT Init
NEXT Next
INVARIANTS Total Lexicographic Lossless SelfSync
CHECK_DEADLOCK FALSE

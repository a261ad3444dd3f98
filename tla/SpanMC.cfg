CONSTANTS MaxX = 5 MaxY = 2
INIT Init
NEXT Next
INVARIANTS Lossless SameEnds Total Sorting Bisecting
CHECK_DEADLOCK FALSE

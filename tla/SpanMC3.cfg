CONSTANTS MaxX = 7 MaxY = 3
INIT Init
NEXT Next
INVARIANTS Lossless SameEnds Total Sorting Bisecting
CHECK_DEADLOCK FALSE

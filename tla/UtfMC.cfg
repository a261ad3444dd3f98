CONSTANT MaxLen = 3
INIT Init
NEXT Next
INVARIANTS RoundTrip Unique Agree SelfSync
CHECK_DEADLOCK FALSE

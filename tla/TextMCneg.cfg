CONSTANT MaxLen = 3
INIT Init
NEXT Next
INVARIANTS UnitOrder
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANTS AddOk SubOk MulOk CmpOk CastOk LimbOk BitsOk
CHECK_DEADLOCK FALSE

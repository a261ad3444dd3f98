CONSTANTS Kind = 1
 Broken = 0
INIT Init
NEXT Next
INVARIANT Laws

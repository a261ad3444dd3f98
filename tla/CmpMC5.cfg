CONSTANTS Kind = 5
 Broken = 0
INIT Init
NEXT Next
INVARIANT Laws

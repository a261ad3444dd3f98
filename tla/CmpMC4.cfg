CONSTANTS Kind = 4
 Broken = 0
INIT Init
NEXT Next
INVARIANT Laws

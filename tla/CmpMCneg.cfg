CONSTANTS Kind = 1
 Broken = 1
INIT Init
NEXT Next
INVARIANT Laws

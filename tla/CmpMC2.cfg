CONSTANTS Kind = 2
 Broken = 0
INIT Init
NEXT Next
INVARIANT Laws

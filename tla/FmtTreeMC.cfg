CONSTANTS Width = 2
 Deep = 1
 Broken = 0
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE

CONSTANTS Width = 2
 Deep = 0
 Broken = 1
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE

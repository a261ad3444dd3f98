INIT Init
NEXT Next
INVARIANTS DigitLaw CaseLaw EscapeLaw
CHECK_DEADLOCK FALSE

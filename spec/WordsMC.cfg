CONSTANTS A = 2 MaxPat = 2 Top = 4
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Labels = {0, 1, 2}
 Shifts <- S2
 MaxArity = 1
 MaxRules = 3
INVARIANTS Below Exact HeldAbove
VIEW view
CHECK_DEADLOCK FALSE

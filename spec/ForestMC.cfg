SPECIFICATION Spec
CONSTANTS Labels = {0, 1}
 Shifts <- S4
 MaxArity = 2
 MaxRules = 2
INVARIANTS Below Exact HeldAbove
VIEW view
CHECK_DEADLOCK FALSE

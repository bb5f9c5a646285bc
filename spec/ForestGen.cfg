SPECIFICATION Spec
CONSTANTS Labels = {0, 1, 2, 3}
 Shifts <- S4
 MaxArity = 2
 MaxRules = 7
INVARIANTS Emit Below Exact
CHECK_DEADLOCK FALSE

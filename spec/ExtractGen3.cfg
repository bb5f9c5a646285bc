SPECIFICATION GenSpec
CONSTANTS Labels = {0, 1}
 Shifts = {0, 1}
 MaxArity = 2
 MaxRules = 3
 Root = 0
 Buckets <- B2
INVARIANTS Emit
CHECK_DEADLOCK FALSE

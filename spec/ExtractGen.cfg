SPECIFICATION GenSpec
CONSTANTS Labels = {0, 1}
 Shifts <- S2
 MaxArity = 2
 MaxRules = 2
 Root = 0
 Buckets <- B4
INVARIANTS Emit
CHECK_DEADLOCK FALSE

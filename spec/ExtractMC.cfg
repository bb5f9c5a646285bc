SPECIFICATION Spec
CONSTANTS Labels = {0, 1}
 Shifts = {0, 1}
 MaxArity = 2
 MaxRules = 3
 Root = 0
 Buckets <- B2
INVARIANTS AlwaysProductive Result
CHECK_DEADLOCK FALSE

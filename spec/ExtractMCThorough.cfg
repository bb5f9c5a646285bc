SPECIFICATION Spec
CONSTANTS Labels = {0, 1, 2}
 Shifts = {0, 1}
 MaxArity = 1
 MaxRules = 4
 Root = 0
 Buckets <- B2
INVARIANTS AlwaysProductive Result
CHECK_DEADLOCK FALSE

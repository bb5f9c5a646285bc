SPECIFICATION Spec
CONSTANTS Labels = {1, 2, 3}
 MaxOps = 4
INVARIANTS Emit
CHECK_DEADLOCK FALSE

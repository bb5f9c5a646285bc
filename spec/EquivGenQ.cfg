SPECIFICATION Spec
CONSTANTS Labels = {1, 2, 3}
 MaxOps = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE

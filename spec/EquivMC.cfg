SPECIFICATION Spec
CONSTANTS Labels = {1, 2, 3, 4}
 MaxOps = 4
INVARIANTS Sound Exact Verified
VIEW view
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Labels = {1, 2, 3, 4}
 MaxOps = 5
INVARIANTS Sound Exact Verified
VIEW view
CHECK_DEADLOCK FALSE

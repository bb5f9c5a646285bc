SPECIFICATION SpecG
CONSTANTS Labels = {1, 2, 3, 4}
 MaxOps = 1
INVARIANTS Sound Exact Verified
VIEW view
CHECK_DEADLOCK FALSE

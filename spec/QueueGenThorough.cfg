SPECIFICATION Spec
CONSTANTS Labels <- MCLabels
 Pack <- MCPack
 MaxOps = 6
INVARIANTS Emit
CHECK_DEADLOCK FALSE

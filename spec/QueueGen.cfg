SPECIFICATION Spec
CONSTANTS Labels <- MCLabels
 Pack <- MCPack
 MaxOps = 5
INVARIANTS Emit
CHECK_DEADLOCK FALSE

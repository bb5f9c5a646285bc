SPECIFICATION Spec
CONSTANTS Labels <- MCLabels
 Pack <- MCPack
 MaxOps = 11
INVARIANTS NothingBad Drains
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION RSpec
CONSTANTS Labels <- MCLabels
 Pack <- MCPack
 MaxOps = 14
INVARIANTS Faithful NoRepeats SameEnd
VIEW RView
CHECK_DEADLOCK FALSE

SPECIFICATION RSpec
CONSTANTS Labels <- MCLabels
 Pack <- MCPack
 MaxOps = 5
INVARIANTS Faithful NoRepeats SameEnd
VIEW RView
CHECK_DEADLOCK FALSE

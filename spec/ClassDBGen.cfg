SPECIFICATION GSpec
CONSTANTS NC = 2
 NL = 2
 Depth = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE

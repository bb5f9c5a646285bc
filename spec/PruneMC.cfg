SPECIFICATION Spec
CONSTANTS
 Labels = {1, 2, 3}
 MaxArity = 2
 MaxRules = 1
 Root = 1
INVARIANTS PruneSound PruneExact TreeValid TreeBounded MinIsMin
CHECK_DEADLOCK FALSE

SPECIFICATION SpecD
CONSTANTS
 Labels = {1, 2}
 MaxArity = 2
 MaxRules = 4
 Root = 1
INVARIANTS PruneSound PruneExact TreeValid TreeBounded MinIsMin DeriveSound
CHECK_DEADLOCK FALSE

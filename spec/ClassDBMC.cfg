SPECIFICATION CSpec
CONSTANTS Classes = {c1, c2, c3, c4}
 EmptyClasses = {c2, c4}
INVARIANTS Injective CacheTruthful Aligned
PROPERTIES Stable DenseFirst
CHECK_DEADLOCK FALSE

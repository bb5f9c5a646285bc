SPECIFICATION Spec
CONSTANTS N1 = 2
 N2 = 3
 Kinds = {"U"}
 Sizes = {1, 2}
 MaxKids = 2
INVARIANTS Correct Reflexive Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N1 = 3
 N2 = 3
 Kinds = {"U"}
 Sizes = {1}
 MaxKids = 2
INVARIANTS Correct Reflexive
CHECK_DEADLOCK FALSE

------------------------------ MODULE ExtractMC -----------------------------
EXTENDS Extract
S2 == {-1, 0, 1}
B2 == {"reverse", "normal"}
B4 == {"reverse", "normal", "equivalence", "verification"}
=============================================================================

------------------------------ MODULE ForestMC -----------------------------
EXTENDS Forest
S4 == {-1, 0, 1, 2}
S2 == {-1, 1}
S3 == {-2, 0, 1}
=============================================================================

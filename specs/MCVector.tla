------------------------------ MODULE MCVector ------------------------------
EXTENDS Vector
=============================================================================

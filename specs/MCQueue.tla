------------------------------- MODULE MCQueue ------------------------------
EXTENDS Queue
CONSTANT MaxId
Bound == nid <= MaxId + 1
=============================================================================

------------------------------- MODULE MCList -------------------------------
EXTENDS List
CONSTANT MaxId
Bound == nid <= MaxId + 1
=============================================================================

SPECIFICATION Spec
CONSTANTS Hashes = {1, 2}  Keys <- MCKeys  Values = {1}  MaxId = 4
CONSTRAINT Bound
INVARIANTS UniqueKeys Disjoint Conserved
PROPERTIES OrderKept
CHECK_DEADLOCK FALSE

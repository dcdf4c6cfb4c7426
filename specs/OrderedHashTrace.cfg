SPECIFICATION TSpec
CONSTANTS Hashes = {1, 2, 3}  Keys = {}  Values = {}
CONSTRAINT KMark
INVARIANTS UniqueKeys Disjoint Conserved
POSTCONDITION KPost
CHECK_DEADLOCK FALSE

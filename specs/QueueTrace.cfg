SPECIFICATION TSpec
CONSTANTS Lists = {1, 2, 3}  Values = {}
CONSTRAINT KMark
INVARIANTS NoDup Disjoint Conserved
POSTCONDITION KPost
CHECK_DEADLOCK FALSE

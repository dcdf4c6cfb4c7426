SPECIFICATION Spec
CONSTANTS Lists = {1, 2}  Values = {1, 2}  MaxId = 5
CONSTRAINT Bound
INVARIANTS NoDup Disjoint Conserved
PROPERTIES ValuesStable
CHECK_DEADLOCK FALSE

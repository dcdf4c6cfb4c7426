SPECIFICATION TSpec
CONSTANTS Names = {1, 2}  Hs = {1, 2, 3}
CONSTRAINT KMark
INVARIANTS Locking Distinct
POSTCONDITION KPost
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
INVARIANTS Fit Deep
CONSTRAINT KMark
POSTCONDITION KPost
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
INVARIANTS LType
CONSTRAINT KMark
POSTCONDITION KPost
CHECK_DEADLOCK FALSE

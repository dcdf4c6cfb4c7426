SPECIFICATION TSpec
CONSTRAINT KMark
POSTCONDITION KPost
CHECK_DEADLOCK FALSE

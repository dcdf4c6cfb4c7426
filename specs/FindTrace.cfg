SPECIFICATION TSpec
CONSTANTS Alpha = {}  MaxData = 0  MaxPat = 0
CONSTRAINT KMark
POSTCONDITION KPost
CHECK_DEADLOCK FALSE

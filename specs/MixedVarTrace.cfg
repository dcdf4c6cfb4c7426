SPECIFICATION TSpec
CONSTANTS
  Vars = {1, 2, 3}
INVARIANT TypeOK
CONSTRAINT KMark
POSTCONDITION KPost
CHECK_DEADLOCK FALSE

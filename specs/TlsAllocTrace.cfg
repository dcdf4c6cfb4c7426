SPECIFICATION TSpec
CONSTANTS
  Threads = {1, 2, 3, 4, 5, 6}
INVARIANTS TypeOK Owned
CONSTRAINT KMark
POSTCONDITION KPost
CHECK_DEADLOCK FALSE

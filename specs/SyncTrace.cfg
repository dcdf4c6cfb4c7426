SPECIFICATION TSpec
CONSTANTS
  Threads <- TThreads
  Handles <- THandles
INVARIANT Exclusion
INVARIANT Bounded
INVARIANT RWExcl
INVARIANT RefsRight
CONSTRAINT KMark
POSTCONDITION KPost
CHECK_DEADLOCK FALSE

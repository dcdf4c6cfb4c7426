SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Ids = {1, 2}
  Sizes = {1, 9, 17, 40}
  Lim = 5
  MaxSys = 4
INVARIANTS TypeOK Owned NothingLeft
PROPERTY Reuse
CONSTRAINT Bound
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Threads = {0, 1}
  Handles = {1, 2}
  Kinds = {"mutex", "sem", "event", "rw", "shm"}
  Calls = 3
  Held = FALSE
INVARIANTS Exclusion Bounded RWExcl RefsRight Attached Reason ZeroNeverBlocks AtLast
CHECK_DEADLOCK FALSE
